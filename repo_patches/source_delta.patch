From 529f3896021933c947e8386b7680de03713762f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:25 +0000
Subject: [PATCH 001/102] fix: reject negative and too big values where
 unsigned ones are expected

std::stoul() and std::stoull() wrap negative values around, and the result
of the former was truncated to 32 bits.
---
 lib/src/parse/parse_common.cpp | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/lib/src/parse/parse_common.cpp b/lib/src/parse/parse_common.cpp
index f473aba..2d7cf0e 100644
--- a/lib/src/parse/parse_common.cpp
+++ b/lib/src/parse/parse_common.cpp
@@ -37,6 +37,13 @@ namespace
 
 const std::size_t MaxPossibleLength = std::numeric_limits<std::size_t>::max();
 
+// std::stoul() and std::stoull() accept negative numbers and wrap them around.
+bool parseIsNonNegative(const std::string& str, std::uintmax_t parsedVal)
+{
+    auto pos = str.find_first_not_of(" \t\n\v\f\r");
+    return (parsedVal == 0U) || (pos == std::string::npos) || (str[pos] != '-');
+}
+
 }
 
 const std::string& parseEmptyString()
@@ -939,9 +946,14 @@ unsigned parseStrToUnsigned(const std::string& str, bool* ok, int base)
 {
     unsigned result = 0U;
     try {
-        result = static_cast<decltype(result)>(std::stoul(str, 0, base));
+        auto val = std::stoul(str, 0, base);
+        bool valid = parseIsNonNegative(str, val) && (val <= std::numeric_limits<decltype(result)>::max());
+        if (valid) {
+            result = static_cast<decltype(result)>(val);
+        }
+
         if (ok != nullptr) {
-            *ok = true;
+            *ok = valid;
         }
 
     } catch (...) {
@@ -973,9 +985,14 @@ std::uintmax_t parseStrToUintMax(const std::string& str, bool* ok, int base)
 {
     std::uintmax_t result = 0U;
     try {
-        result = std::stoull(str, 0, base);
+        auto val = std::stoull(str, 0, base);
+        bool valid = parseIsNonNegative(str, val);
+        if (valid) {
+            result = val;
+        }
+
         if (ok != nullptr) {
-            *ok = true;
+            *ok = valid;
         }
 
     } catch (...) {
-- 
2.43.0


From 5ab6f2997805d4fc6976cedf3efc47f87391cdbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:52 +0000
Subject: [PATCH 002/102] fix: do not keep "removed" of elements which are not
 deprecated

The property is reported as not applicable, but was still recorded. Reuse of
such a definition aborted on assertion failure.
---
 lib/src/parse/ParseFieldImpl.cpp   | 1 +
 lib/src/parse/ParseMessageImpl.cpp | 1 +
 2 files changed, 2 insertions(+)

diff --git a/lib/src/parse/ParseFieldImpl.cpp b/lib/src/parse/ParseFieldImpl.cpp
index f9e36ad..4bf0f26 100644
--- a/lib/src/parse/ParseFieldImpl.cpp
+++ b/lib/src/parse/ParseFieldImpl.cpp
@@ -1238,6 +1238,7 @@ bool ParseFieldImpl::parseUpdateVersions()
             parseLogWarning() << ParseXmlWrap::parseLogPrefix(parseGetNode()) <<
                 "Property \"" << common::parseRemovedStr() << "\" is not applicable to "
                 "non deprecated fields";
+            deprecatedRemoved = false;
         }
     } while (false);
 
diff --git a/lib/src/parse/ParseMessageImpl.cpp b/lib/src/parse/ParseMessageImpl.cpp
index cf7cf0f..0b8e738 100644
--- a/lib/src/parse/ParseMessageImpl.cpp
+++ b/lib/src/parse/ParseMessageImpl.cpp
@@ -598,6 +598,7 @@ bool ParseMessageImpl::parseUpdateVersions()
             parseLogWarning() << ParseXmlWrap::parseLogPrefix(parseGetNode()) <<
                 "Property \"" << common::parseRemovedStr() << "\" is not applicable to "
                 "non deprecated fields";
+            deprecatedRemoved = false;
         }
     } while (false);
 
-- 
2.43.0


From 8c9fdcd6a9d0e42a745fbbd05595536edab84285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:52 +0000
Subject: [PATCH 003/102] fix: merge valid ranges of 64 bit integers properly

The comparison was signed even if the type is uint64 or uintvar, and
addition of 1 overflowed for the maximal signed value.
---
 lib/src/parse/ParseIntFieldImpl.cpp | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/lib/src/parse/ParseIntFieldImpl.cpp b/lib/src/parse/ParseIntFieldImpl.cpp
index e73bad8..54aef49 100644
--- a/lib/src/parse/ParseIntFieldImpl.cpp
+++ b/lib/src/parse/ParseIntFieldImpl.cpp
@@ -933,6 +933,16 @@ bool ParseIntFieldImpl::parseUpdateValidRanges()
         });
 
     // Merge
+    auto valueLess =
+        [bigUnsigned](std::intmax_t val1, std::intmax_t val2)
+        {
+            if (bigUnsigned) {
+                return static_cast<std::uintmax_t>(val1) < static_cast<std::uintmax_t>(val2);
+            }
+
+            return val1 < val2;
+        };
+
     for (auto iter = m_state.m_validRanges.begin(); iter != m_state.m_validRanges.end(); ++iter) {
         if (iter->m_deprecatedSince == 0U) {
             continue;
@@ -943,15 +953,19 @@ bool ParseIntFieldImpl::parseUpdateValidRanges()
                 continue;
             }
 
+            // The distance is calculated on unsigned values to avoid overflow
+            auto distance = static_cast<std::uintmax_t>(nextIter->m_min) - static_cast<std::uintmax_t>(iter->m_max);
             if ((iter->m_sinceVersion != nextIter->m_sinceVersion) ||
                 (iter->m_deprecatedSince != nextIter->m_deprecatedSince) ||
-                ((iter->m_max + 1) < nextIter->m_min)) {
+                (valueLess(iter->m_max, nextIter->m_min) && (1U < distance))) {
                 break;
             }
 
-            assert(iter->m_min <= nextIter->m_min);
+            assert(!valueLess(nextIter->m_min, iter->m_min));
             nextIter->m_deprecatedSince = 0U; // invalidate next range
-            iter->m_max = std::max(iter->m_max, nextIter->m_max);
+            if (valueLess(iter->m_max, nextIter->m_max)) {
+                iter->m_max = nextIter->m_max;
+            }
         }
     }
 
-- 
2.43.0


From b208a2376ae4a7a58d81eeede9ad94b1e3de024d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:03 +0000
Subject: [PATCH 004/102] fix: do not abort on valid ranges ending with special
 values or given twice

The merge of the overlapping floating point ranges failed on assertion when
the later one had infinity as its maximum, and equal ranges which are not
merged (special values, inverted ranges) failed on assertion when sorted.
---
 lib/src/parse/ParseFloatFieldImpl.cpp | 6 +++---
 lib/src/parse/ParseIntFieldImpl.cpp   | 1 -
 2 files changed, 3 insertions(+), 4 deletions(-)

diff --git a/lib/src/parse/ParseFloatFieldImpl.cpp b/lib/src/parse/ParseFloatFieldImpl.cpp
index 539e57a..0ae4a9f 100644
--- a/lib/src/parse/ParseFloatFieldImpl.cpp
+++ b/lib/src/parse/ParseFloatFieldImpl.cpp
@@ -464,9 +464,10 @@ bool ParseFloatFieldImpl::parseUpdateValidRanges()
                 break;
             }
 
-            assert(!isSpecial(nextIter->m_max));
             nextIter->m_deprecatedSince = 0U; // invalidate next range
-            iter->m_max = std::max(iter->m_max, nextIter->m_max);
+            if (parseCompareLess(iter->m_max, nextIter->m_max)) {
+                iter->m_max = nextIter->m_max;
+            }
         }
     }
 
@@ -506,7 +507,6 @@ bool ParseFloatFieldImpl::parseUpdateValidRanges()
                 return elem1.m_sinceVersion < elem2.m_sinceVersion;
             }
 
-            assert(elem1.m_deprecatedSince != elem2.m_deprecatedSince);
             return elem1.m_deprecatedSince < elem2.m_deprecatedSince;
         });
 
diff --git a/lib/src/parse/ParseIntFieldImpl.cpp b/lib/src/parse/ParseIntFieldImpl.cpp
index 54aef49..8381930 100644
--- a/lib/src/parse/ParseIntFieldImpl.cpp
+++ b/lib/src/parse/ParseIntFieldImpl.cpp
@@ -1007,7 +1007,6 @@ bool ParseIntFieldImpl::parseUpdateValidRanges()
                 return elem1.m_sinceVersion < elem2.m_sinceVersion;
             }
 
-            assert(elem1.m_deprecatedSince != elem2.m_deprecatedSince);
             return elem1.m_deprecatedSince < elem2.m_deprecatedSince;
         });
 
-- 
2.43.0


From 71872adba318aa5d21a181dd5782672b58eb0da4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:03 +0000
Subject: [PATCH 005/102] fix: support non-integral count prefix in calculation
 of the list length

---
 lib/src/parse/ParseListFieldImpl.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/src/parse/ParseListFieldImpl.cpp b/lib/src/parse/ParseListFieldImpl.cpp
index 66e1e0c..4e7f413 100644
--- a/lib/src/parse/ParseListFieldImpl.cpp
+++ b/lib/src/parse/ParseListFieldImpl.cpp
@@ -186,9 +186,9 @@ std::size_t ParseListFieldImpl::parseMaxLengthImpl() const
         return extraLen;
     }
 
-    if (parseHasCountPrefixField()) {
+    if (parseHasCountPrefixField() &&
+        (parseGetCountPrefixField()->parseKind() == ParseField::ParseKind::Int)) {
         auto* prefixField = parseGetCountPrefixField();
-        assert(prefixField->parseKind() == ParseField::ParseKind::Int);
         auto& castedPrefix = static_cast<const ParseIntFieldImpl&>(*prefixField);
         std::size_t count = static_cast<std::size_t>(castedPrefix.parseMaxValue());
         auto result = common::parseMulLength(elemMaxLength, count);
-- 
2.43.0


From 2833aa678a7d6aa074bbb24d3543250c4a9d2be2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:20 +0000
Subject: [PATCH 006/102] fix: reject sets with empty or too big length instead
 of aborting

---
 lib/src/parse/ParseSetFieldImpl.cpp | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/lib/src/parse/ParseSetFieldImpl.cpp b/lib/src/parse/ParseSetFieldImpl.cpp
index e9a4515..502e392 100644
--- a/lib/src/parse/ParseSetFieldImpl.cpp
+++ b/lib/src/parse/ParseSetFieldImpl.cpp
@@ -358,7 +358,12 @@ bool ParseSetFieldImpl::parseUpdateLength()
     do {
         if (bitLengthStr.empty()) {
             if (m_state.m_bitLength == 0U) {
-                assert(m_state.m_length != 0U);
+                if (m_state.m_length == 0U) {
+                    parseReportUnexpectedPropertyValue(
+                        parseIsBitfieldMember() ? common::parseBitLengthStr() : common::parseLengthStr(), common::parseEmptyString());
+                    return false;
+                }
+
                 m_state.m_bitLength = m_state.m_length * 8U;
             }
             break;
@@ -368,14 +373,18 @@ bool ParseSetFieldImpl::parseUpdateLength()
             parseLogWarning() << ParseXmlWrap::parseLogPrefix((parseGetNode())) <<
                             "The property \"" << common::parseBitLengthStr() << "\" is "
                             "applicable only to the members of \"" << common::parseBitparseFieldStr() << "\"";
-            assert(m_state.m_length != 0U);
+            if (m_state.m_length == 0U) {
+                parseReportUnexpectedPropertyValue(common::parseLengthStr(), lengthStr);
+                return false;
+            }
+
             m_state.m_bitLength = m_state.m_length * 8U;
             break;
         }
 
         bool ok = false;
         m_state.m_bitLength = static_cast<decltype(m_state.m_bitLength)>(common::parseStrToUintMax(bitLengthStr, &ok));
-        if ((!ok) || (m_state.m_bitLength == 0U)) {
+        if ((!ok) || (m_state.m_bitLength == 0U) || ((maxLength * 8U) < m_state.m_bitLength)) {
             parseReportUnexpectedPropertyValue(common::parseBitLengthStr(), bitLengthStr);
             return false;
         }
-- 
2.43.0


From b0940ad5f2f0bdb629f7d0cdf1006aeec137e790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:20 +0000
Subject: [PATCH 007/102] fix: reject bitfield members with 0 bits instead of
 aborting

---
 lib/src/parse/ParseEnumFieldImpl.cpp | 2 +-
 lib/src/parse/ParseIntFieldImpl.cpp  | 2 +-
 lib/src/parse/ParseRefFieldImpl.cpp  | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/src/parse/ParseEnumFieldImpl.cpp b/lib/src/parse/ParseEnumFieldImpl.cpp
index e708ca5..7908d9a 100644
--- a/lib/src/parse/ParseEnumFieldImpl.cpp
+++ b/lib/src/parse/ParseEnumFieldImpl.cpp
@@ -374,7 +374,7 @@ bool ParseEnumFieldImpl::parseUpdateBitLength()
 
     bool ok = false;
     m_state.m_bitLength = common::parseStrToUnsigned(valStr, &ok);
-    if (!ok) {
+    if ((!ok) || (m_state.m_bitLength == 0U)) {
         parseReportUnexpectedPropertyValue(common::parseBitLengthStr(), valStr);
         return false;
     }
diff --git a/lib/src/parse/ParseIntFieldImpl.cpp b/lib/src/parse/ParseIntFieldImpl.cpp
index 8381930..568c066 100644
--- a/lib/src/parse/ParseIntFieldImpl.cpp
+++ b/lib/src/parse/ParseIntFieldImpl.cpp
@@ -641,7 +641,7 @@ bool ParseIntFieldImpl::parseUpdateBitLength()
 
     bool ok = false;
     m_state.m_bitLength = common::parseStrToUnsigned(valStr, &ok);
-    if (!ok) {
+    if ((!ok) || (m_state.m_bitLength == 0U)) {
         parseReportUnexpectedPropertyValue(common::parseBitLengthStr(), valStr);
         return false;
     }
diff --git a/lib/src/parse/ParseRefFieldImpl.cpp b/lib/src/parse/ParseRefFieldImpl.cpp
index e3f47ed..959c50e 100644
--- a/lib/src/parse/ParseRefFieldImpl.cpp
+++ b/lib/src/parse/ParseRefFieldImpl.cpp
@@ -254,7 +254,7 @@ bool ParseRefFieldImpl::parseUpdateBitLength()
 
     bool ok = false;
     m_state.m_bitLength = common::parseStrToUnsigned(valStr, &ok);
-    if (!ok) {
+    if ((!ok) || (m_state.m_bitLength == 0U)) {
         parseReportUnexpectedPropertyValue(common::parseBitLengthStr(), valStr);
         return false;
     }
-- 
2.43.0


From 8208e706abbbae92500571f688082d86514f38d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:20 +0000
Subject: [PATCH 008/102] fix: do not abort when reused ref is redirected to a
 shorter field

---
 lib/src/parse/ParseRefFieldImpl.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/lib/src/parse/ParseRefFieldImpl.cpp b/lib/src/parse/ParseRefFieldImpl.cpp
index 959c50e..748d3f4 100644
--- a/lib/src/parse/ParseRefFieldImpl.cpp
+++ b/lib/src/parse/ParseRefFieldImpl.cpp
@@ -236,12 +236,10 @@ bool ParseRefFieldImpl::parseUpdateBitLength()
     assert(0 < parseMaxLength());
     auto maxBitLength = parseMaxLength() * BitsInByte;
     if (valStr.empty()) {
-        if (m_state.m_bitLength == 0) {
+        if ((m_state.m_bitLength == 0) || (maxBitLength < m_state.m_bitLength)) {
             m_state.m_bitLength = maxBitLength;
-            return true;
         }
 
-        assert(m_state.m_bitLength <= maxBitLength);
         return true;
     }
 
-- 
2.43.0


From d90b219c0595c61457f58686f0b48a120b72a732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:20 +0000
Subject: [PATCH 009/102] fix: reject invalid reference in the value of data
 field instead of aborting

---
 lib/src/parse/ParseDataFieldImpl.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/parse/ParseDataFieldImpl.cpp b/lib/src/parse/ParseDataFieldImpl.cpp
index ffcd923..f598bc4 100644
--- a/lib/src/parse/ParseDataFieldImpl.cpp
+++ b/lib/src/parse/ParseDataFieldImpl.cpp
@@ -544,7 +544,7 @@ const ParseFieldImpl* ParseDataFieldImpl::parseGetPrefixField() const
 bool ParseDataFieldImpl::parseStrToValue(const std::string& str, ParseValueType& val) const
 {
     if ((!str.empty()) && (str[0] == common::parseStringRefPrefix()) && parseProtocol().parseIsFieldValueReferenceSupported()) {
-        return parseProtocol().parseStrToData(std::string(str, 1), false, val);
+        return parseProtocol().parseStrToData(std::string(str, 1), true, val);
     }
 
     std::string adjStr = str;
-- 
2.43.0


From 6c1fbb920534e7d59282351c4ba5d0aacd689fe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:20 +0000
Subject: [PATCH 010/102] fix: reject empty references instead of aborting

---
 lib/src/parse/ParseProtocolImpl.cpp | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/lib/src/parse/ParseProtocolImpl.cpp b/lib/src/parse/ParseProtocolImpl.cpp
index 05259e6..ede4e26 100644
--- a/lib/src/parse/ParseProtocolImpl.cpp
+++ b/lib/src/parse/ParseProtocolImpl.cpp
@@ -126,7 +126,10 @@ const ParseSchemaImpl& ParseProtocolImpl::parseCurrSchema() const
 
 const ParseFieldImpl* ParseProtocolImpl::parseFindField(const std::string& ref, bool checkRef) const
 {
-    assert(!ref.empty());
+    if (ref.empty()) {
+        return nullptr;
+    }
+
     auto parsedRef = parseExternalRef(ref);
     if ((parsedRef.first == nullptr) || (parsedRef.second.empty())) {
         return nullptr;
@@ -141,7 +144,10 @@ const ParseFieldImpl* ParseProtocolImpl::parseFindField(const std::string& ref,
 
 const ParseMessageImpl* ParseProtocolImpl::parseFindMessage(const std::string& ref, bool checkRef) const
 {
-    assert(!ref.empty());
+    if (ref.empty()) {
+        return nullptr;
+    }
+
     auto parsedRef = parseExternalRef(ref);
     if ((parsedRef.first == nullptr) || (parsedRef.second.empty())) {
         return nullptr;
@@ -156,7 +162,10 @@ const ParseMessageImpl* ParseProtocolImpl::parseFindMessage(const std::string& r
 
 const ParseInterfaceImpl* ParseProtocolImpl::parseFindInterface(const std::string& ref, bool checkRef) const
 {
-    assert(!ref.empty());
+    if (ref.empty()) {
+        return nullptr;
+    }
+
     auto parsedRef = parseExternalRef(ref);
     if ((parsedRef.first == nullptr) || (parsedRef.second.empty())) {
         return nullptr;
-- 
2.43.0


From 6098c53b6568190d5772152e94036a69bb3f28bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:20 +0000
Subject: [PATCH 011/102] fix: reject property elements with conflicting values

The error was reported, but the property silently ignored when the element
is allowed to have no value.
---
 lib/src/parse/ParseXmlWrap.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/parse/ParseXmlWrap.cpp b/lib/src/parse/ParseXmlWrap.cpp
index abc904e..0ea1607 100644
--- a/lib/src/parse/ParseXmlWrap.cpp
+++ b/lib/src/parse/ParseXmlWrap.cpp
@@ -185,7 +185,7 @@ bool ParseXmlWrap::parseChildrenAsProps(
         }
 
         std::string value;
-        if ((!parseNodeValue(c, logger, value, mustHaveValue)) && (mustHaveValue)) {
+        if (!parseNodeValue(c, logger, value, mustHaveValue)) {
             return false;
         }
 
-- 
2.43.0


From 9439debdcad2b991523996e53258027bb4378d0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:20 +0000
Subject: [PATCH 012/102] fix: do not crash on inner references into optional
 of an external field

---
 lib/src/parse/ParseOptionalFieldImpl.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib/src/parse/ParseOptionalFieldImpl.cpp b/lib/src/parse/ParseOptionalFieldImpl.cpp
index dafbcdc..437f51b 100644
--- a/lib/src/parse/ParseOptionalFieldImpl.cpp
+++ b/lib/src/parse/ParseOptionalFieldImpl.cpp
@@ -249,11 +249,12 @@ ParseOptionalFieldImpl::ParseFieldRefInfo ParseOptionalFieldImpl::parseProcessIn
         restStr = refStr.substr(sepPos + 1);
     }
 
-    if (fieldName != m_field->parseName()) {
+    auto* field = parseGetField();
+    if (fieldName != field->parseName()) {
         return ParseFieldRefInfo();
     }
 
-    return m_field->parseProcessInnerRef(restStr);
+    return field->parseProcessInnerRef(restStr);
 }
 
 bool ParseOptionalFieldImpl::parseIsValidRefTypeImpl(ParseFieldRefType type) const
-- 
2.43.0


From 34d0c1ed3131d73b6ed259a3988b3851046bd8c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:20 +0000
Subject: [PATCH 013/102] fix: reject <field> element without a field in it
 instead of crashing

---
 lib/src/parse/ParseLayerImpl.cpp         | 11 +++++++++--
 lib/src/parse/ParseOptionalFieldImpl.cpp | 11 +++++++++--
 2 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/lib/src/parse/ParseLayerImpl.cpp b/lib/src/parse/ParseLayerImpl.cpp
index a15c1e4..ebe29a4 100644
--- a/lib/src/parse/ParseLayerImpl.cpp
+++ b/lib/src/parse/ParseLayerImpl.cpp
@@ -567,8 +567,15 @@ bool ParseLayerImpl::parseCheckFieldAsChild()
         }
 
         if (parseProps().find(common::parseFieldStr()) == parseProps().end()) {
-            fieldNode = fields.front();
-            break;
+            if (!fields.empty()) {
+                fieldNode = fields.front();
+                break;
+            }
+
+            parseLogError() << ParseXmlWrap::parseLogPrefix(child) <<
+                "The \"" << common::parseFieldStr() << "\" element "
+                "is expected to define field as child element";
+            return false;
         }
 
         auto attrs = ParseXmlWrap::parseNodeProps(parseGetNode());
diff --git a/lib/src/parse/ParseOptionalFieldImpl.cpp b/lib/src/parse/ParseOptionalFieldImpl.cpp
index 437f51b..a09c6ea 100644
--- a/lib/src/parse/ParseOptionalFieldImpl.cpp
+++ b/lib/src/parse/ParseOptionalFieldImpl.cpp
@@ -491,8 +491,15 @@ bool ParseOptionalFieldImpl::parseCheckFieldAsChild()
         }
 
         if (parseProps().find(common::parseFieldStr()) == parseProps().end()) {
-            fieldNode = fields.front();
-            break;
+            if (!fields.empty()) {
+                fieldNode = fields.front();
+                break;
+            }
+
+            parseLogError() << ParseXmlWrap::parseLogPrefix(child) <<
+                "The \"" << common::parseFieldStr() << "\" element "
+                "is expected to define field as child element";
+            return false;
         }
 
         auto attrs = ParseXmlWrap::parseNodeProps(parseGetNode());
-- 
2.43.0


From d5a821bfccee68ad3426fc5e9e604bbe894bc13b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:20 +0000
Subject: [PATCH 014/102] fix: report unknown kinds of prefix fields instead of
 aborting

---
 lib/src/parse/ParseDataFieldImpl.cpp   | 4 ++--
 lib/src/parse/ParseListFieldImpl.cpp   | 4 ++--
 lib/src/parse/ParseStringFieldImpl.cpp | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/lib/src/parse/ParseDataFieldImpl.cpp b/lib/src/parse/ParseDataFieldImpl.cpp
index f598bc4..ea9b528 100644
--- a/lib/src/parse/ParseDataFieldImpl.cpp
+++ b/lib/src/parse/ParseDataFieldImpl.cpp
@@ -447,8 +447,8 @@ bool ParseDataFieldImpl::parseCheckPrefixAsChild()
 
     auto field = ParseFieldImpl::parseCreate(fieldKind, fieldNode, parseProtocol());
     if (!field) {
-        [[maybe_unused]] static constexpr bool Should_not_happen = false;
-        assert(Should_not_happen);
+        parseLogError() << ParseXmlWrap::parseLogPrefix(fieldNode) <<
+            "Unknown field type \"" << fieldKind << "\".";
         return false;
     }
 
diff --git a/lib/src/parse/ParseListFieldImpl.cpp b/lib/src/parse/ParseListFieldImpl.cpp
index 4e7f413..34ec61f 100644
--- a/lib/src/parse/ParseListFieldImpl.cpp
+++ b/lib/src/parse/ParseListFieldImpl.cpp
@@ -714,8 +714,8 @@ bool ParseListFieldImpl::parseCheckPrefixAsChild(
 
     auto field = ParseFieldImpl::parseCreate(fieldKind, fieldNode, parseProtocol());
     if (!field) {
-        [[maybe_unused]] static constexpr bool Should_not_happen = false;
-        assert(Should_not_happen);
+        parseLogError() << ParseXmlWrap::parseLogPrefix(fieldNode) <<
+            "Unknown field type \"" << fieldKind << "\".";
         return false;
     }
 
diff --git a/lib/src/parse/ParseStringFieldImpl.cpp b/lib/src/parse/ParseStringFieldImpl.cpp
index bc28561..f889637 100644
--- a/lib/src/parse/ParseStringFieldImpl.cpp
+++ b/lib/src/parse/ParseStringFieldImpl.cpp
@@ -547,8 +547,8 @@ bool ParseStringFieldImpl::parseCheckPrefixAsChild()
 
     auto field = ParseFieldImpl::parseCreate(fieldKind, fieldNode, parseProtocol());
     if (!field) {
-        [[maybe_unused]] static constexpr bool Should_not_happen = false;
-        assert(Should_not_happen);
+        parseLogError() << ParseXmlWrap::parseLogPrefix(fieldNode) <<
+            "Unknown field type \"" << fieldKind << "\".";
         return false;
     }
 
-- 
2.43.0


From 47e12319f3cff5b45997a3296fc1d54601f9f610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:45 +0000
Subject: [PATCH 015/102] fix: generate messages and interfaces of nested
 namespaces

---
 lib/src/gen/GenNamespace.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/lib/src/gen/GenNamespace.cpp b/lib/src/gen/GenNamespace.cpp
index 418654b..c85de8c 100644
--- a/lib/src/gen/GenNamespace.cpp
+++ b/lib/src/gen/GenNamespace.cpp
@@ -186,6 +186,10 @@ public:
         for (auto& iPtr : m_interfaces) {
             iPtr->genSetReferenced(true);
         }
+
+        for (auto& nPtr : m_namespaces) {
+            nPtr->genSetAllInterfacesReferenced();
+        }
     }
 
     void genSetAllMessagesReferenced()
@@ -193,6 +197,10 @@ public:
         for (auto& mPtr : m_messages) {
             mPtr->genSetReferenced(true);
         }
+
+        for (auto& nPtr : m_namespaces) {
+            nPtr->genSetAllMessagesReferenced();
+        }
     }
 
     bool genHasReferencedMessageIdField() const
-- 
2.43.0


From 7184ec6d6ed49cd4d37b8ae60c3167794ff1e282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:45 +0000
Subject: [PATCH 016/102] fix: check message ids of all nested namespaces for
 uniqueness

---
 lib/src/parse/ParseNamespaceImpl.cpp | 28 +++++++++++++++++++++++-----
 lib/src/parse/ParseNamespaceImpl.h   |  3 +++
 2 files changed, 26 insertions(+), 5 deletions(-)

diff --git a/lib/src/parse/ParseNamespaceImpl.cpp b/lib/src/parse/ParseNamespaceImpl.cpp
index 43caaea..b34ff6e 100644
--- a/lib/src/parse/ParseNamespaceImpl.cpp
+++ b/lib/src/parse/ParseNamespaceImpl.cpp
@@ -435,6 +435,28 @@ ParseNamespaceImpl::ParseImplInterfacesList ParseNamespaceImpl::parseAllImplInte
     return result;
 }
 
+ParseNamespaceImpl::ParseMessagesList ParseNamespaceImpl::parseAllMessages() const
+{
+    ParseMessagesList result = parseMessagesList();
+    for (auto& n : m_namespaces) {
+        auto msgs = n.second->parseAllMessages();
+        result.insert(result.end(), msgs.begin(), msgs.end());
+    }
+
+    return result;
+}
+
+ParseNamespaceImpl::ParseInterfacesList ParseNamespaceImpl::parseAllInterfaces() const
+{
+    ParseInterfacesList result = parseInterfacesList();
+    for (auto& n : m_namespaces) {
+        auto ifaces = n.second->parseAllInterfaces();
+        result.insert(result.end(), ifaces.begin(), ifaces.end());
+    }
+
+    return result;
+}
+
 ParseNamespaceImpl::ParseFieldRefInfosList ParseNamespaceImpl::parseProcessInterfaceFieldRef(const std::string& refStr) const
 {
     ParseFieldRefInfosList result;
@@ -451,11 +473,7 @@ ParseNamespaceImpl::ParseFieldRefInfosList ParseNamespaceImpl::parseProcessInter
 
 bool ParseNamespaceImpl::parseValidateAllMessages(bool allowNonUniquIds)
 {
-    ParseMessagesList allMsgs = parseMessagesList();
-    for (auto& ns : m_namespaces) {
-        auto nsMsgs = ns.second->parseMessagesList();
-        allMsgs.insert(allMsgs.end(), nsMsgs.begin(), nsMsgs.end());
-    }
+    ParseMessagesList allMsgs = parseAllMessages();
 
     std::sort(
         allMsgs.begin(), allMsgs.end(),
diff --git a/lib/src/parse/ParseNamespaceImpl.h b/lib/src/parse/ParseNamespaceImpl.h
index d737768..8fe36d0 100644
--- a/lib/src/parse/ParseNamespaceImpl.h
+++ b/lib/src/parse/ParseNamespaceImpl.h
@@ -182,6 +182,9 @@ public:
 
     ParseImplInterfacesList parseAllImplInterfaces() const;
 
+    ParseMessagesList parseAllMessages() const;
+    ParseInterfacesList parseAllInterfaces() const;
+
     ParseFieldRefInfosList parseProcessInterfaceFieldRef(const std::string& refStr) const;
 
     bool parseValidateAllMessages(bool allowNonUniquIds);
-- 
2.43.0


From bbc0eb59a27e79f68ba638dcb29ea82922aaedd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:45 +0000
Subject: [PATCH 017/102] fix: list messages and interfaces of nested
 namespaces

---
 lib/src/parse/ParseSchemaImpl.cpp | 22 ++--------------------
 1 file changed, 2 insertions(+), 20 deletions(-)

diff --git a/lib/src/parse/ParseSchemaImpl.cpp b/lib/src/parse/ParseSchemaImpl.cpp
index ea0be48..bd911ef 100644
--- a/lib/src/parse/ParseSchemaImpl.cpp
+++ b/lib/src/parse/ParseSchemaImpl.cpp
@@ -137,18 +137,9 @@ const ParseInterfaceImpl* ParseSchemaImpl::parseFindInterface(const std::string&
 
 ParseSchemaImpl::ParseMessagesList ParseSchemaImpl::parseAllMessages() const
 {
-    auto total =
-        std::accumulate(
-            m_namespaces.begin(), m_namespaces.end(), static_cast<std::size_t>(0U),
-            [](std::size_t soFar, auto& ns) -> std::size_t
-            {
-                return soFar + ns.second->parseMessages().size();
-            });
-
     ParseNamespaceImpl::ParseMessagesList messages;
-    messages.reserve(total);
     for (auto& ns : m_namespaces) {
-        auto nsMsgs = ns.second->parseMessagesList();
+        auto nsMsgs = ns.second->parseAllMessages();
         messages.insert(messages.end(), nsMsgs.begin(), nsMsgs.end());
     }
 
@@ -172,18 +163,9 @@ ParseSchemaImpl::ParseMessagesList ParseSchemaImpl::parseAllMessages() const
 
 ParseSchemaImpl::ParseInterfacesList ParseSchemaImpl::parseAllInterfaces() const
 {
-    auto total =
-        std::accumulate(
-            m_namespaces.begin(), m_namespaces.end(), static_cast<std::size_t>(0U),
-            [](std::size_t soFar, auto& ns) -> std::size_t
-            {
-                return soFar + ns.second->parseInterfaces().size();
-            });
-
     ParseNamespaceImpl::ParseInterfacesList interfaces;
-    interfaces.reserve(total);
     for (auto& ns : m_namespaces) {
-        auto nsMsgs = ns.second->parseInterfacesList();
+        auto nsMsgs = ns.second->parseAllInterfaces();
         interfaces.insert(interfaces.end(), nsMsgs.begin(), nsMsgs.end());
     }
 
-- 
2.43.0


From 538788a34a1e678927a961c73567427616cd36af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:45 +0000
Subject: [PATCH 018/102] fix: report error on invalid platform name

---
 lib/src/parse/ParseProtocolImpl.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/src/parse/ParseProtocolImpl.cpp b/lib/src/parse/ParseProtocolImpl.cpp
index ede4e26..f95ed26 100644
--- a/lib/src/parse/ParseProtocolImpl.cpp
+++ b/lib/src/parse/ParseProtocolImpl.cpp
@@ -721,8 +721,8 @@ bool ParseProtocolImpl::parseValidateSinglePlatform(::xmlNodePtr node)
     static const std::string InvalidChars("+-,");
     auto pos = name.find_first_of(InvalidChars);
     if (pos != std::string::npos) {
-        parseLogWarning() << ParseXmlWrap::parseLogPrefix(node) <<
-            "Invalid platform name (" << name << ".";
+        parseLogError() << ParseXmlWrap::parseLogPrefix(node) <<
+            "Invalid platform name (" << name << ").";
         return false;
     }
 
-- 
2.43.0


From 44a7dd91310a2810ce15c872655625b7f6b981ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:52 +0000
Subject: [PATCH 019/102] fix: keep inherited aliases of nested fields, reject
 conflicting ones

---
 lib/src/parse/ParseAliasImpl.cpp       | 76 ++++++++++++++++----------
 lib/src/parse/ParseAliasImpl.h         |  4 ++
 lib/src/parse/ParseBundleFieldImpl.cpp | 21 +------
 lib/src/parse/ParseInterfaceImpl.cpp   | 24 ++------
 lib/src/parse/ParseMessageImpl.cpp     | 24 ++------
 5 files changed, 61 insertions(+), 88 deletions(-)

diff --git a/lib/src/parse/ParseAliasImpl.cpp b/lib/src/parse/ParseAliasImpl.cpp
index 1216620..069fd15 100644
--- a/lib/src/parse/ParseAliasImpl.cpp
+++ b/lib/src/parse/ParseAliasImpl.cpp
@@ -87,6 +87,50 @@ bool ParseAliasImpl::parse()
     return true;
 }
 
+bool ParseAliasImpl::parseUpdateInherited(std::vector<ParsePtr>& aliases, const std::vector<ParseFieldImplPtr>& fields)
+{
+    std::vector<ParsePtr> inherited;
+    inherited.swap(aliases);
+    for (auto& alias : inherited) {
+        if (!alias->parseFindAliasedField(fields)) {
+            continue;
+        }
+
+        if (!alias->parseVerifyAlias(aliases, fields)) {
+            return false;
+        }
+
+        aliases.push_back(std::move(alias));
+    }
+
+    return true;
+}
+
+bool ParseAliasImpl::parseFindAliasedField(const std::vector<ParseFieldImplPtr>& fields) const
+{
+    auto& aliasedFieldName = parseFieldName();
+    auto dotPos = aliasedFieldName.find('.');
+    std::string firstAliasedFieldName(aliasedFieldName, 0, dotPos);
+
+    auto aliasedFieldIter =
+        std::find_if(
+            fields.begin(), fields.end(),
+            [&firstAliasedFieldName](auto& f)
+            {
+                return firstAliasedFieldName == f->parseName();
+            });
+
+    if (aliasedFieldIter == fields.end()) {
+        return false;
+    }
+
+    if (aliasedFieldName.size() <= dotPos) {
+        return true;
+    }
+
+    return (*aliasedFieldIter)->parseVerifyAliasedMember(std::string(aliasedFieldName, dotPos + 1));
+}
+
 bool ParseAliasImpl::parseVerifyAlias(
     const std::vector<ParsePtr>& aliases,
     const std::vector<ParseFieldImplPtr>& fields) const
@@ -137,38 +181,12 @@ bool ParseAliasImpl::parseVerifyAlias(
         return false;
     }
 
-    auto& aliasedFieldName = parseFieldName();
-    auto dotPos = aliasedFieldName.find('.');
-    std::string firstAliasedFieldName(aliasedFieldName, 0, dotPos);
-
-    auto aliasedFieldIter =
-        std::find_if(
-            fields.begin(), fields.end(),
-            [&firstAliasedFieldName](auto& f)
-            {
-                return firstAliasedFieldName == f->parseName();
-            });
-
-    auto reportNotFoundFieldFunc =
-        [this, &aliasedFieldName]()
-        {
-            parseLogError(m_protocol.parseLogger()) << ParseXmlWrap::parseLogPrefix(parseGetNode()) <<
-                "Aliased field(s) with name \"" << aliasedFieldName << "\", hasn't been found.";
-        };
-
-    if (aliasedFieldIter == fields.end()) {
-        reportNotFoundFieldFunc();
+    if (!parseFindAliasedField(fields)) {
+        parseLogError(m_protocol.parseLogger()) << ParseXmlWrap::parseLogPrefix(parseGetNode()) <<
+            "Aliased field(s) with name \"" << parseFieldName() << "\", hasn't been found.";
         return false;
     }
 
-    if (dotPos < aliasedFieldName.size()) {
-        std::string restAliasedFieldName(aliasedFieldName, dotPos + 1);
-        if (!(*aliasedFieldIter)->parseVerifyAliasedMember(restAliasedFieldName)) {
-            reportNotFoundFieldFunc();
-            return false;
-        }
-    }
-
     return true;
 }
 
diff --git a/lib/src/parse/ParseAliasImpl.h b/lib/src/parse/ParseAliasImpl.h
index a877148..0d2fe72 100644
--- a/lib/src/parse/ParseAliasImpl.h
+++ b/lib/src/parse/ParseAliasImpl.h
@@ -82,6 +82,9 @@ public:
         return m_node;
     }
 
+    /// @brief Drop inherited aliases of the fields that do not exist any more, verify the rest
+    static bool parseUpdateInherited(std::vector<ParsePtr>& aliases, const std::vector<ParseFieldImplPtr>& fields);
+
     bool parseVerifyAlias(const std::vector<ParsePtr>& aliases, const std::vector<ParseFieldImplPtr>& fields) const;
 
 protected:
@@ -89,6 +92,7 @@ protected:
 
 private:
 
+    bool parseFindAliasedField(const std::vector<ParseFieldImplPtr>& fields) const;
     bool parseUpdateName(const ParsePropsMap& props);
     bool parseUpdateDescription(const ParsePropsMap& props);
     bool parseUpdateFieldName(const ParsePropsMap& props);
diff --git a/lib/src/parse/ParseBundleFieldImpl.cpp b/lib/src/parse/ParseBundleFieldImpl.cpp
index 43898b3..03c0175 100644
--- a/lib/src/parse/ParseBundleFieldImpl.cpp
+++ b/lib/src/parse/ParseBundleFieldImpl.cpp
@@ -439,25 +439,8 @@ bool ParseBundleFieldImpl::parseUpdateMembers()
 
 bool ParseBundleFieldImpl::parseUpdateAliases()
 {
-    if (!m_aliases.empty()) {
-        // Remove aliases in case their aliased fields were removed
-        m_aliases.erase(
-            std::remove_if(
-                m_aliases.begin(), m_aliases.end(),
-                [this](auto& alias)
-                {
-                    auto& fieldName = alias->parseFieldName();
-                    auto iter =
-                        std::find_if(
-                            m_members.begin(), m_members.end(),
-                            [&fieldName](auto& m)
-                            {
-                                return m->parseName() == fieldName;
-                            });
-
-                    return iter == m_members.end();
-                }),
-            m_aliases.end());
+    if (!ParseAliasImpl::parseUpdateInherited(m_aliases, m_members)) {
+        return false;
     }
 
     auto aliasNodes = ParseXmlWrap::parseGetChildren(parseGetNode(), common::parseAliasStr());
diff --git a/lib/src/parse/ParseInterfaceImpl.cpp b/lib/src/parse/ParseInterfaceImpl.cpp
index 608c5f5..9f7ce3b 100644
--- a/lib/src/parse/ParseInterfaceImpl.cpp
+++ b/lib/src/parse/ParseInterfaceImpl.cpp
@@ -570,26 +570,6 @@ bool ParseInterfaceImpl::parseCopyAliases()
         return true;
     }
 
-    if (!m_state.m_aliases.empty()) {
-        m_state.m_aliases.erase(
-            std::remove_if(
-                m_state.m_aliases.begin(), m_state.m_aliases.end(),
-                [this](auto& alias)
-                {
-                    auto& fieldName = alias->parseFieldName();
-                    assert(!fieldName.empty());
-                    auto fieldIter =
-                        std::find_if(
-                            m_state.m_fields.begin(), m_state.m_fields.end(),
-                            [&fieldName](auto& f)
-                            {
-                                return fieldName == f->parseName();
-                            });
-
-                    return fieldIter == m_state.m_fields.end();
-                }),
-            m_state.m_aliases.end());
-    }
     return true;
 }
 
@@ -627,6 +607,10 @@ void ParseInterfaceImpl::parseCloneAliasesFrom(const ParseBundleFieldImpl& other
 
 bool ParseInterfaceImpl::parseUpdateAliases()
 {
+    if (!ParseAliasImpl::parseUpdateInherited(m_state.m_aliases, m_state.m_fields)) {
+        return false;
+    }
+
     auto aliasNodes = ParseXmlWrap::parseGetChildren(parseGetNode(), common::parseAliasStr());
 
     if (aliasNodes.empty()) {
diff --git a/lib/src/parse/ParseMessageImpl.cpp b/lib/src/parse/ParseMessageImpl.cpp
index 0b8e738..7802fd3 100644
--- a/lib/src/parse/ParseMessageImpl.cpp
+++ b/lib/src/parse/ParseMessageImpl.cpp
@@ -959,26 +959,6 @@ bool ParseMessageImpl::parseCopyAliases()
         parseCloneAliasesFrom(*m_copyFieldsFromBundle);
     }
 
-    if (!m_state.m_aliases.empty()) {
-        m_state.m_aliases.erase(
-            std::remove_if(
-                m_state.m_aliases.begin(), m_state.m_aliases.end(),
-                [this](auto& alias)
-                {
-                    auto& fieldName = alias->parseFieldName();
-                    assert(!fieldName.empty());
-                    auto fieldIter =
-                        std::find_if(
-                            m_state.m_fields.begin(), m_state.m_fields.end(),
-                            [&fieldName](auto& f)
-                            {
-                                return fieldName == f->parseName();
-                            });
-
-                    return fieldIter == m_state.m_fields.end();
-                }),
-            m_state.m_aliases.end());
-    }
     return true;
 }
 
@@ -1077,6 +1057,10 @@ bool ParseMessageImpl::parseUpdateFields()
 
 bool ParseMessageImpl::parseUpdateAliases()
 {
+    if (!ParseAliasImpl::parseUpdateInherited(m_state.m_aliases, m_state.m_fields)) {
+        return false;
+    }
+
     auto aliasNodes = ParseXmlWrap::parseGetChildren(parseGetNode(), common::parseAliasStr());
 
     if (aliasNodes.empty()) {
-- 
2.43.0


From 4cc4313e51cd003724b1ad33621b670673279432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:52 +0000
Subject: [PATCH 020/102] fix: keep aliases and validity conditions of copied
 fields

---
 lib/src/parse/ParseBitfieldFieldImpl.cpp | 4 ++++
 lib/src/parse/ParseBundleFieldImpl.cpp   | 9 +++++++++
 2 files changed, 13 insertions(+)

diff --git a/lib/src/parse/ParseBitfieldFieldImpl.cpp b/lib/src/parse/ParseBitfieldFieldImpl.cpp
index c1c9750..838ac73 100644
--- a/lib/src/parse/ParseBitfieldFieldImpl.cpp
+++ b/lib/src/parse/ParseBitfieldFieldImpl.cpp
@@ -57,6 +57,10 @@ ParseBitfieldFieldImpl::ParseBitfieldFieldImpl(const ParseBitfieldFieldImpl& oth
     for (auto& m : other.m_members) {
         m_members.push_back(m->parseClone());
     }
+
+    if (other.m_validCond) {
+        m_validCond = other.m_validCond->parseClone();
+    }
 }
 
 ParseBitfieldFieldImpl::ParseMembers ParseBitfieldFieldImpl::parseMembersList() const
diff --git a/lib/src/parse/ParseBundleFieldImpl.cpp b/lib/src/parse/ParseBundleFieldImpl.cpp
index 03c0175..9034b3d 100644
--- a/lib/src/parse/ParseBundleFieldImpl.cpp
+++ b/lib/src/parse/ParseBundleFieldImpl.cpp
@@ -64,6 +64,15 @@ ParseBundleFieldImpl::ParseBundleFieldImpl(const ParseBundleFieldImpl& other)
     for (auto& m : other.m_members) {
         m_members.push_back(m->parseClone());
     }
+
+    m_aliases.reserve(other.m_aliases.size());
+    for (auto& a : other.m_aliases) {
+        m_aliases.push_back(a->parseClone());
+    }
+
+    if (other.m_validCond) {
+        m_validCond = other.m_validCond->parseClone();
+    }
 }
 
 ParseBundleFieldImpl::ParseMembers ParseBundleFieldImpl::parseMembersList() const
-- 
2.43.0


From 6f8ed41528b4f67a08e899d2c7e6acf88c025004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:52 +0000
Subject: [PATCH 021/102] fix: reject frames having layers with the same name

---
 lib/src/parse/ParseFrameImpl.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/src/parse/ParseFrameImpl.cpp b/lib/src/parse/ParseFrameImpl.cpp
index 26e4e86..dc9c540 100644
--- a/lib/src/parse/ParseFrameImpl.cpp
+++ b/lib/src/parse/ParseFrameImpl.cpp
@@ -303,6 +303,7 @@ bool ParseFrameImpl::parseUpdateLayers()
             parseLogError() << ParseXmlWrap::parseLogPrefix(lNode) <<
                 "Layer with name \"" << layer->parseName() << "\" has already been "
                 "defined within the same frame.";
+            return false;
         }
 
         if (layer->parseKind() == ParseLayerImpl::ParseKind::Payload) {
-- 
2.43.0


From dfa9d5f9f1aaaa777ba35f62ff340c3dd1ec8069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:21 +0000
Subject: [PATCH 022/102] fix: check values of special values against inherited
 ones

---
 lib/src/parse/ParseFloatFieldImpl.cpp | 9 +++++++++
 lib/src/parse/ParseIntFieldImpl.cpp   | 4 ++++
 2 files changed, 13 insertions(+)

diff --git a/lib/src/parse/ParseFloatFieldImpl.cpp b/lib/src/parse/ParseFloatFieldImpl.cpp
index 0ae4a9f..1646454 100644
--- a/lib/src/parse/ParseFloatFieldImpl.cpp
+++ b/lib/src/parse/ParseFloatFieldImpl.cpp
@@ -525,6 +525,15 @@ bool ParseFloatFieldImpl::parseUpdateSpecials()
     using RecSpecials = std::multimap<double, std::string>;
     RecSpecials recSpecials;
     std::string prevNanSpecial;
+    for (auto& s : m_state.m_specials) {
+        if (std::isnan(s.second.m_value)) {
+            prevNanSpecial = s.first;
+            continue;
+        }
+
+        recSpecials.insert(std::make_pair(s.second.m_value, s.first));
+    }
+
 
     for (auto* s : specials) {
         static const ParseXmlWrap::ParseNamesList PropNames = {
diff --git a/lib/src/parse/ParseIntFieldImpl.cpp b/lib/src/parse/ParseIntFieldImpl.cpp
index 568c066..0e301b9 100644
--- a/lib/src/parse/ParseIntFieldImpl.cpp
+++ b/lib/src/parse/ParseIntFieldImpl.cpp
@@ -1025,6 +1025,10 @@ bool ParseIntFieldImpl::parseUpdateSpecials()
 
     using RecSpecials = std::multimap<std::intmax_t, std::string>;
     RecSpecials recSpecials;
+    for (auto& s : m_state.m_specials) {
+        recSpecials.insert(std::make_pair(s.second.m_value, s.first));
+    }
+
 
     for (auto* s : specials) {
         static const ParseXmlWrap::ParseNamesList PropNames = {
-- 
2.43.0


From 83df6c2b4e2521f3dae28c97b35947af4f37f70f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:21 +0000
Subject: [PATCH 023/102] fix: keep endian of reused float field

---
 lib/src/parse/ParseFloatFieldImpl.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/src/parse/ParseFloatFieldImpl.cpp b/lib/src/parse/ParseFloatFieldImpl.cpp
index 1646454..8d96fc6 100644
--- a/lib/src/parse/ParseFloatFieldImpl.cpp
+++ b/lib/src/parse/ParseFloatFieldImpl.cpp
@@ -319,6 +319,10 @@ bool ParseFloatFieldImpl::parseUpdateEndian()
     }
 
     auto& endianStr = common::parseGetStringProp(parseProps(), common::parseEndianStr());
+    if ((endianStr.empty()) && (m_state.m_endian != ParseEndian_NumOfValues)) {
+        return true;
+    }
+
     m_state.m_endian = common::parseEndian(endianStr, parseProtocol().parseCurrSchema().parseEndian());
     if (m_state.m_endian == ParseEndian_NumOfValues) {
         parseReportUnexpectedPropertyValue(common::parseEndianStr(), endianStr);
-- 
2.43.0


From e3a88fa994dad767de38b56706794fe17b19316a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:21 +0000
Subject: [PATCH 024/102] fix: allow replacing several message fields, reject
 empty replace

---
 lib/src/parse/ParseFieldImpl.cpp   | 7 ++++++-
 lib/src/parse/ParseMessageImpl.cpp | 2 +-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/lib/src/parse/ParseFieldImpl.cpp b/lib/src/parse/ParseFieldImpl.cpp
index 4bf0f26..590b7d4 100644
--- a/lib/src/parse/ParseFieldImpl.cpp
+++ b/lib/src/parse/ParseFieldImpl.cpp
@@ -1147,7 +1147,12 @@ bool ParseFieldImpl::parseCheckReplace()
         replMembers.push_back(std::move(field));
     }
 
-    assert(!replMembers.empty());
+    if (replMembers.empty()) {
+        parseLogError() << ParseXmlWrap::parseLogPrefix(replaceNodes.front()) <<
+            "The \"" << common::parseReplaceStr() << "\" child element must contain member fields.";
+        return false;
+    }
+
     return parseReplaceMembersImpl(replMembers);
 }
 
diff --git a/lib/src/parse/ParseMessageImpl.cpp b/lib/src/parse/ParseMessageImpl.cpp
index 7802fd3..f88b2a3 100644
--- a/lib/src/parse/ParseMessageImpl.cpp
+++ b/lib/src/parse/ParseMessageImpl.cpp
@@ -859,7 +859,7 @@ bool ParseMessageImpl::parseReplaceFields()
     }
 
     auto fieldsTypes = ParseXmlWrap::parseGetChildren(replaceNodes.front(), parseMessageSupportedTypes());
-    if (fieldsTypes.size() != replaceNodes.size()) {
+    if ((fieldsTypes.empty()) || (fieldsTypes.size() != ParseXmlWrap::parseGetChildren(replaceNodes.front()).size())) {
         parseLogError() << ParseXmlWrap::parseLogPrefix(replaceNodes.front()) <<
             "The \"" << common::parseReplaceStr() << "\" child node of \"" <<
             common::parseMessageStr() << "\" element must contain only supported field types.";
-- 
2.43.0


From 715f4a4b96fbab000dc2563c453d9e1b9a682d28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:21 +0000
Subject: [PATCH 025/102] fix: check total length of bitfields with replaced
 members

---
 lib/src/parse/ParseBitfieldFieldImpl.cpp | 42 ++++++++++++------------
 1 file changed, 21 insertions(+), 21 deletions(-)

diff --git a/lib/src/parse/ParseBitfieldFieldImpl.cpp b/lib/src/parse/ParseBitfieldFieldImpl.cpp
index 838ac73..ceba486 100644
--- a/lib/src/parse/ParseBitfieldFieldImpl.cpp
+++ b/lib/src/parse/ParseBitfieldFieldImpl.cpp
@@ -378,30 +378,30 @@ bool ParseBitfieldFieldImpl::parseUpdateMembers()
         if (!parseValidateMembersNames(m_members)) {
             return false;
         }
+    } while (false);
 
-        auto totalBitLength =
-            std::accumulate(
-                m_members.begin(), m_members.end(), static_cast<std::size_t>(0U),
-                [](std::size_t soFar, auto& elem) -> std::size_t
-                {
-                    return soFar + elem->parseBitLength();
-                });
+    auto totalBitLength =
+        std::accumulate(
+            m_members.begin(), m_members.end(), static_cast<std::size_t>(0U),
+            [](std::size_t soFar, auto& elem) -> std::size_t
+            {
+                return soFar + elem->parseBitLength();
+            });
 
-        if ((totalBitLength % 8U) != 0) {
-            parseLogError() << ParseXmlWrap::parseLogPrefix(parseGetNode()) <<
-                          "The summary of member's bit lengths (" << totalBitLength <<
-                          ") is expected to be devisable by 8.";
-            return false;
-        }
+    if ((totalBitLength % 8U) != 0) {
+        parseLogError() << ParseXmlWrap::parseLogPrefix(parseGetNode()) <<
+                      "The summary of member's bit lengths (" << totalBitLength <<
+                      ") is expected to be devisable by 8.";
+        return false;
+    }
 
-        static const std::size_t MaxBits = std::numeric_limits<std::uint64_t>::digits;
-        if (MaxBits < totalBitLength) {
-            parseLogError() << ParseXmlWrap::parseLogPrefix(parseGetNode()) <<
-                          "The summary of member's bit lengths (" << totalBitLength <<
-                          ") cannot be greater than " << MaxBits << '.';
-            return false;
-        }
-    } while (false);
+    static const std::size_t MaxBits = std::numeric_limits<std::uint64_t>::digits;
+    if (MaxBits < totalBitLength) {
+        parseLogError() << ParseXmlWrap::parseLogPrefix(parseGetNode()) <<
+                      "The summary of member's bit lengths (" << totalBitLength <<
+                      ") cannot be greater than " << MaxBits << '.';
+        return false;
+    }
 
     return true;
 }
-- 
2.43.0


From a483a0068cc183299354adfbb2bfc0b6e3fe8f71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:21 +0000
Subject: [PATCH 026/102] fix: verify references of replaced bundle members

---
 lib/src/parse/ParseBundleFieldImpl.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/src/parse/ParseBundleFieldImpl.cpp b/lib/src/parse/ParseBundleFieldImpl.cpp
index 9034b3d..ca6035e 100644
--- a/lib/src/parse/ParseBundleFieldImpl.cpp
+++ b/lib/src/parse/ParseBundleFieldImpl.cpp
@@ -210,6 +210,10 @@ bool ParseBundleFieldImpl::parseReplaceMembersImpl(ParseFieldsList& members)
             return false;
         }
 
+        if (!mem->parseVerifySiblings(m_members)) {
+            return false;
+        }
+
         (*iter) = std::move(mem);
     }
 
-- 
2.43.0


From d35e14b1db71e79a53115ba2f5b88d5f14b03e7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:21 +0000
Subject: [PATCH 027/102] fix: validate minimal length of messages without
 fields of their own

---
 lib/src/parse/ParseMessageImpl.cpp | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/lib/src/parse/ParseMessageImpl.cpp b/lib/src/parse/ParseMessageImpl.cpp
index f88b2a3..cc5b6c3 100644
--- a/lib/src/parse/ParseMessageImpl.cpp
+++ b/lib/src/parse/ParseMessageImpl.cpp
@@ -1039,18 +1039,17 @@ bool ParseMessageImpl::parseUpdateFields()
         if (!ParseFieldImpl::parseValidateMembersNames(m_state.m_fields, m_protocol.parseLogger())) {
             return false;
         }
+    } while (false);
 
-        if (0 <= m_state.m_validateMinLength) {
-            auto len = parseMinLength();
-            if (static_cast<unsigned>(m_state.m_validateMinLength) != len) {
-                parseLogError() << ParseXmlWrap::parseLogPrefix(parseGetNode()) <<
-                    "The calculated minimal length of the message is " << len <<
-                    " while expected is " << m_state.m_validateMinLength << " (specified with \"" << common::parseValidateMinLengthStr() << "\" property).";
-                return false;
-            }
+    if (0 <= m_state.m_validateMinLength) {
+        auto len = parseMinLength();
+        if (static_cast<unsigned>(m_state.m_validateMinLength) != len) {
+            parseLogError() << ParseXmlWrap::parseLogPrefix(parseGetNode()) <<
+                "The calculated minimal length of the message is " << len <<
+                " while expected is " << m_state.m_validateMinLength << " (specified with \"" << common::parseValidateMinLengthStr() << "\" property).";
+            return false;
         }
-
-    } while (false);
+    }
 
     return true;
 }
-- 
2.43.0


From 2e96597fcd84edcc0ab76353c9a0e5daba290524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:21 +0000
Subject: [PATCH 028/102] fix: do not abort when message with platforms or
 order is reused

---
 lib/src/parse/ParseMessageImpl.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/lib/src/parse/ParseMessageImpl.cpp b/lib/src/parse/ParseMessageImpl.cpp
index cc5b6c3..bea41cd 100644
--- a/lib/src/parse/ParseMessageImpl.cpp
+++ b/lib/src/parse/ParseMessageImpl.cpp
@@ -539,7 +539,6 @@ bool ParseMessageImpl::parseUpdateOrder()
 
     auto iter = m_props.find(common::parseOrderStr());
     if (iter == m_props.end()) {
-        assert(m_state.m_order == 0U);
         return true;
     }
 
@@ -616,7 +615,6 @@ bool ParseMessageImpl::parseUpdatePlatforms()
 
     auto iter = m_props.find(common::parsePlatformsStr());
     if (iter == m_props.end()) {
-        assert(m_state.m_platforms.empty());
         return true;
     }
 
@@ -682,6 +680,7 @@ bool ParseMessageImpl::parseUpdatePlatforms()
 
     assert(op == Minus);
     assert(platList.size() <= allPlatforms.size());
+    m_state.m_platforms.clear();
     m_state.m_platforms.reserve(allPlatforms.size() - platList.size());
     std::set_difference(
         allPlatforms.begin(), allPlatforms.end(),
-- 
2.43.0


From 685fb5328ade9fdf5cd506d222332ae4da3b8f98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:49 +0000
Subject: [PATCH 029/102] fix: detached length prefix excludes other ways to
 determine the length

---
 lib/src/parse/ParseDataFieldImpl.cpp   | 4 ++--
 lib/src/parse/ParseStringFieldImpl.cpp | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/lib/src/parse/ParseDataFieldImpl.cpp b/lib/src/parse/ParseDataFieldImpl.cpp
index ea9b528..2a9bece 100644
--- a/lib/src/parse/ParseDataFieldImpl.cpp
+++ b/lib/src/parse/ParseDataFieldImpl.cpp
@@ -289,7 +289,7 @@ bool ParseDataFieldImpl::parseUpdateLength()
         return true;
     }
 
-    if (parseHasPrefixField()) {
+    if (parseHasPrefixField() || (!m_state.m_detachedPrefixField.empty())) {
         parseLogError() << ParseXmlWrap::parseLogPrefix(parseGetNode()) <<
             "Cannot force fixed length after reusing data sequence with length prefix.";
         return false;
@@ -306,7 +306,7 @@ bool ParseDataFieldImpl::parseUpdatePrefix()
         return false;
     }
 
-    if (!parseHasPrefixField()) {
+    if ((!parseHasPrefixField()) && (m_state.m_detachedPrefixField.empty())) {
         return true;
     }
 
diff --git a/lib/src/parse/ParseStringFieldImpl.cpp b/lib/src/parse/ParseStringFieldImpl.cpp
index f889637..dbc4b5a 100644
--- a/lib/src/parse/ParseStringFieldImpl.cpp
+++ b/lib/src/parse/ParseStringFieldImpl.cpp
@@ -335,7 +335,7 @@ bool ParseStringFieldImpl::parseUpdateLength()
         return true;
     }
 
-    if (parseHasPrefixField()) {
+    if (parseHasPrefixField() || (!m_state.m_detachedPrefixField.empty())) {
         parseLogError() << ParseXmlWrap::parseLogPrefix(parseGetNode()) <<
             "Cannot force fixed length after reusing string with length prefix.";
         return false;
@@ -358,7 +358,7 @@ bool ParseStringFieldImpl::parseUpdatePrefix()
         return false;
     }
 
-    if (!parseHasPrefixField()) {
+    if ((!parseHasPrefixField()) && (m_state.m_detachedPrefixField.empty())) {
         return true;
     }
 
@@ -410,7 +410,7 @@ bool ParseStringFieldImpl::parseUpdateZeroTerm()
         return false;
     }
 
-    if (parseHasPrefixField()) {
+    if (parseHasPrefixField() || (!m_state.m_detachedPrefixField.empty())) {
         parseLogError() << ParseXmlWrap::parseLogPrefix(parseGetNode()) <<
             "Cannot apply zero suffix to strings having length prefix.";
         return false;
-- 
2.43.0


From 75dc5823d86df1f45a6569b7a1e1ec86548fd375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:02 +0000
Subject: [PATCH 030/102] fix: report error on invalid size comparison

---
 lib/src/parse/ParseOptCondImpl.cpp | 8 +++++---
 lib/src/parse/ParseOptCondImpl.h   | 2 +-
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/lib/src/parse/ParseOptCondImpl.cpp b/lib/src/parse/ParseOptCondImpl.cpp
index 88e2d7a..295e4c2 100644
--- a/lib/src/parse/ParseOptCondImpl.cpp
+++ b/lib/src/parse/ParseOptCondImpl.cpp
@@ -443,7 +443,7 @@ bool ParseOptCondExprImpl::parseVerifySiblingComparison(const ParseOptCondImpl::
             return false;
         }
 
-        return parseVerifyValidSizeValueComparison();
+        return parseVerifyValidSizeValueComparison(node, protocol);
     }
 
     if (leftInfo.m_refType != ParseFieldImpl::FieldRefType_Field) {
@@ -523,7 +523,7 @@ bool ParseOptCondExprImpl::parseVerifyInterfaceComparison(const ParseFieldsList&
             return false;
         }
 
-        return parseVerifyValidSizeValueComparison();
+        return parseVerifyValidSizeValueComparison(node, protocol);
     }
 
     parseDiscardNonFieldReferences(leftFields);
@@ -619,7 +619,7 @@ bool ParseOptCondExprImpl::parseVerifyInterfaceComparison(const ParseFieldsList&
     return true;
 }
 
-bool ParseOptCondExprImpl::parseVerifyValidSizeValueComparison() const
+bool ParseOptCondExprImpl::parseVerifyValidSizeValueComparison(::xmlNodePtr node, const ParseProtocolImpl& protocol) const
 {
     try {
         [[maybe_unused]] auto val = std::stoll(m_right);
@@ -628,6 +628,8 @@ bool ParseOptCondExprImpl::parseVerifyValidSizeValueComparison() const
         // Do nothing
     }
 
+    parseLogError(protocol.parseLogger()) << ParseXmlWrap::parseLogPrefix(node) <<
+        "The size of \"" << m_left << "\" cannot be compared to value \"" << m_right << "\".";
     return false;
 }
 
diff --git a/lib/src/parse/ParseOptCondImpl.h b/lib/src/parse/ParseOptCondImpl.h
index d9bc64c..1c11d26 100644
--- a/lib/src/parse/ParseOptCondImpl.h
+++ b/lib/src/parse/ParseOptCondImpl.h
@@ -129,7 +129,7 @@ private:
     bool parseVerifyComparison(const ParseFieldsList& fields, ::xmlNodePtr node, const ParseProtocolImpl& protocol) const;
     bool parseVerifySiblingComparison(const ParseFieldsList& fields, ::xmlNodePtr node, const ParseProtocolImpl& protocol) const;
     bool parseVerifyInterfaceComparison(const ParseFieldsList& fields, ::xmlNodePtr node, const ParseProtocolImpl& protocol) const;
-    bool parseVerifyValidSizeValueComparison() const;
+    bool parseVerifyValidSizeValueComparison(::xmlNodePtr node, const ParseProtocolImpl& protocol) const;
 
     std::string m_left;
     std::string m_op;
-- 
2.43.0


From 3c87b901c77f6ec1ec5d7739e528f0e16c9f9e6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:37 +0000
Subject: [PATCH 031/102] fix: report unknown requested messages and interfaces
 instead of aborting

---
 lib/src/gen/GenNamespace.cpp |  5 ++++-
 lib/src/gen/GenSchema.cpp    | 19 ++-----------------
 2 files changed, 6 insertions(+), 18 deletions(-)

diff --git a/lib/src/gen/GenNamespace.cpp b/lib/src/gen/GenNamespace.cpp
index c85de8c..d2ea9ed 100644
--- a/lib/src/gen/GenNamespace.cpp
+++ b/lib/src/gen/GenNamespace.cpp
@@ -725,7 +725,10 @@ const GenField* GenNamespace::genFindField(const std::string& externalRef) const
 
 const GenMessage* GenNamespace::genGindMessage(const std::string& externalRef) const
 {
-    assert(!externalRef.empty());
+    if (externalRef.empty()) {
+        return nullptr;
+    }
+
     auto pos = externalRef.find_first_of('.');
     std::string nsName;
     if (pos != std::string::npos) {
diff --git a/lib/src/gen/GenSchema.cpp b/lib/src/gen/GenSchema.cpp
index 2d2dd68..06e460d 100644
--- a/lib/src/gen/GenSchema.cpp
+++ b/lib/src/gen/GenSchema.cpp
@@ -165,9 +165,6 @@ public:
                 });
 
         if ((nsIter == m_namespaces.end()) || ((*nsIter)->genName() != nsName)) {
-            m_generator.genLogger().genError("Internal error: unknown external reference: " + externalRef);
-            [[maybe_unused]] static constexpr bool Should_not_happen = false;
-            assert(Should_not_happen);
             return nullptr;
         }
 
@@ -176,13 +173,7 @@ public:
             fromPos = pos + 1U;
         }
         std::string remStr(externalRef, fromPos);
-        auto result = (*nsIter)->genGindMessage(remStr);
-        if (result == nullptr) {
-            m_generator.genLogger().genError("Internal error: unknown external reference: " + externalRef);
-            [[maybe_unused]] static constexpr bool Should_not_happen = false;
-            assert(Should_not_happen);
-        }
-        return result;
+        return (*nsIter)->genGindMessage(remStr);
     }
 
     GenMessage* genGindMessage(const std::string& externalRef)
@@ -253,13 +244,7 @@ public:
             fromPos = pos + 1U;
         }
         std::string remStr(externalRef, fromPos);
-        auto result = (*nsIter)->genFindInterface(remStr);
-        if (result == nullptr) {
-            m_generator.genLogger().genError("Internal error: unknown external reference: " + externalRef);
-            [[maybe_unused]] static constexpr bool Should_not_happen = false;
-            assert(Should_not_happen);
-        }
-        return result;
+        return (*nsIter)->genFindInterface(remStr);
     }
 
     bool genCreateAll()
-- 
2.43.0


From 38402b8834713cc15333b9be6ee0198ffa442674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:16 +0000
Subject: [PATCH 032/102] fix: verify references of members again after some
 are left out or replaced

---
 lib/src/parse/ParseBitfieldFieldImpl.cpp |  9 ++++++++-
 lib/src/parse/ParseBitfieldFieldImpl.h   |  1 +
 lib/src/parse/ParseBundleFieldImpl.cpp   | 21 ++++++++++++---------
 lib/src/parse/ParseBundleFieldImpl.h     |  1 +
 lib/src/parse/ParseFieldImpl.cpp         | 17 +++++++++++++++++
 lib/src/parse/ParseFieldImpl.h           |  3 +++
 lib/src/parse/ParseMessageImpl.cpp       | 19 +++++++++++--------
 lib/src/parse/ParseMessageImpl.h         |  1 +
 8 files changed, 54 insertions(+), 18 deletions(-)

diff --git a/lib/src/parse/ParseBitfieldFieldImpl.cpp b/lib/src/parse/ParseBitfieldFieldImpl.cpp
index ceba486..1b42a4c 100644
--- a/lib/src/parse/ParseBitfieldFieldImpl.cpp
+++ b/lib/src/parse/ParseBitfieldFieldImpl.cpp
@@ -151,7 +151,8 @@ bool ParseBitfieldFieldImpl::parseImpl()
         parseUpdateMembers() &&
         parseCopyValidCond() &&
         parseUpdateSingleValidCond() &&
-        parseUpdateMultiValidCond();
+        parseUpdateMultiValidCond() &&
+        parseVerifyValidCond();
 }
 
 bool ParseBitfieldFieldImpl::parseReplaceMembersImpl(ParseFieldsList& members)
@@ -416,6 +417,12 @@ bool ParseBitfieldFieldImpl::parseUpdateMultiValidCond()
     return parseUpdateMultiCondInternal(common::parseValidCondStr(), m_validCond);
 }
 
+bool ParseBitfieldFieldImpl::parseVerifyValidCond() const
+{
+    // Reused condition can refer to members which were replaced.
+    return (!m_validCond) || m_validCond->parseVerify(m_members, parseGetNode(), parseProtocol());
+}
+
 bool ParseBitfieldFieldImpl::parseCopyValidCond()
 {
     auto& prop = common::parseCopyValidCondFromStr();
diff --git a/lib/src/parse/ParseBitfieldFieldImpl.h b/lib/src/parse/ParseBitfieldFieldImpl.h
index 0323087..bf2adce 100644
--- a/lib/src/parse/ParseBitfieldFieldImpl.h
+++ b/lib/src/parse/ParseBitfieldFieldImpl.h
@@ -75,6 +75,7 @@ private:
     bool parseUpdateSingleValidCond();
     bool parseUpdateMultiValidCond();
     bool parseCopyValidCond();
+    bool parseVerifyValidCond() const;
 
     bool parseUpdateSingleCondInternal(const std::string& prop, ParseOptCondImplPtr& cond);
     bool parseUpdateMultiCondInternal(const std::string& prop, ParseOptCondImplPtr& cond);
diff --git a/lib/src/parse/ParseBundleFieldImpl.cpp b/lib/src/parse/ParseBundleFieldImpl.cpp
index ca6035e..d629061 100644
--- a/lib/src/parse/ParseBundleFieldImpl.cpp
+++ b/lib/src/parse/ParseBundleFieldImpl.cpp
@@ -188,7 +188,8 @@ bool ParseBundleFieldImpl::parseImpl()
         parseUpdateAliases() &&
         parseCopyValidCond() &&
         parseUpdateSingleValidCond() &&
-        parseUpdateMultiValidCond();
+        parseUpdateMultiValidCond() &&
+        parseVerifyValidCond();
 }
 
 bool ParseBundleFieldImpl::parseReplaceMembersImpl(ParseFieldsList& members)
@@ -210,10 +211,6 @@ bool ParseBundleFieldImpl::parseReplaceMembersImpl(ParseFieldsList& members)
             return false;
         }
 
-        if (!mem->parseVerifySiblings(m_members)) {
-            return false;
-        }
-
         (*iter) = std::move(mem);
     }
 
@@ -405,10 +402,6 @@ bool ParseBundleFieldImpl::parseUpdateMembers()
                 return false;
             }
 
-            if (!mem->parseVerifySiblings(m_members)) {
-                return false;
-            }
-
             m_members.push_back(std::move(mem));
         }
 
@@ -418,6 +411,10 @@ bool ParseBundleFieldImpl::parseUpdateMembers()
 
     } while (false);
 
+    if (!parseVerifyMembersSiblings(m_members)) {
+        return false;
+    }
+
     bool hasSameVer =
         std::any_of(
             m_members.begin(), m_members.end(),
@@ -504,6 +501,12 @@ bool ParseBundleFieldImpl::parseUpdateMultiValidCond()
     return parseUpdateMultiCondInternal(common::parseValidCondStr(), m_validCond);
 }
 
+bool ParseBundleFieldImpl::parseVerifyValidCond() const
+{
+    // Reused condition can refer to members which were left out or replaced.
+    return (!m_validCond) || m_validCond->parseVerify(m_members, parseGetNode(), parseProtocol());
+}
+
 bool ParseBundleFieldImpl::parseCopyValidCond()
 {
     auto& prop = common::parseCopyValidCondFromStr();
diff --git a/lib/src/parse/ParseBundleFieldImpl.h b/lib/src/parse/ParseBundleFieldImpl.h
index bb1a417..d9f6ac7 100644
--- a/lib/src/parse/ParseBundleFieldImpl.h
+++ b/lib/src/parse/ParseBundleFieldImpl.h
@@ -86,6 +86,7 @@ private:
     bool parseUpdateSingleValidCond();
     bool parseUpdateMultiValidCond();
     bool parseCopyValidCond();
+    bool parseVerifyValidCond() const;
 
     bool parseUpdateSingleCondInternal(const std::string& prop, ParseOptCondImplPtr& cond);
     bool parseUpdateMultiCondInternal(const std::string& prop, ParseOptCondImplPtr& cond);
diff --git a/lib/src/parse/ParseFieldImpl.cpp b/lib/src/parse/ParseFieldImpl.cpp
index 590b7d4..a710b37 100644
--- a/lib/src/parse/ParseFieldImpl.cpp
+++ b/lib/src/parse/ParseFieldImpl.cpp
@@ -232,6 +232,23 @@ bool ParseFieldImpl::parseValidateMembersNames(const ParseFieldImpl::ParseFields
     return parseValidateMembersNames(fields, parseProtocol().parseLogger());
 }
 
+bool ParseFieldImpl::parseVerifyMembersSiblings(ParseFieldsList& fields)
+{
+    ParseFieldsList verified;
+    verified.reserve(fields.size());
+    for (auto& f : fields) {
+        assert(f);
+        if (!f->parseVerifySiblings(verified)) {
+            return false;
+        }
+
+        verified.push_back(std::move(f));
+    }
+
+    fields = std::move(verified);
+    return true;
+}
+
 bool ParseFieldImpl::parseIsBitfieldMember() const
 {
     return (parseGetParent() != nullptr) &&
diff --git a/lib/src/parse/ParseFieldImpl.h b/lib/src/parse/ParseFieldImpl.h
index b7d7764..0eeff16 100644
--- a/lib/src/parse/ParseFieldImpl.h
+++ b/lib/src/parse/ParseFieldImpl.h
@@ -192,6 +192,9 @@ public:
 
     bool parseValidateMembersNames(const ParseFieldsList& fields);
 
+    // Verify that every field can be used after the ones listed before it
+    static bool parseVerifyMembersSiblings(ParseFieldsList& fields);
+
     const ParseXmlWrap::ParseNamesList& parseExtraPropsNames() const
     {
         return parseExtraPropsNamesImpl();
diff --git a/lib/src/parse/ParseMessageImpl.cpp b/lib/src/parse/ParseMessageImpl.cpp
index bea41cd..81cf75d 100644
--- a/lib/src/parse/ParseMessageImpl.cpp
+++ b/lib/src/parse/ParseMessageImpl.cpp
@@ -133,6 +133,7 @@ bool ParseMessageImpl::parse()
         parseUpdateMultiValidCond() &&
         parseCopyConstructToReadCond() &&
         parseCopyConstructToValidCond() &&
+        parseVerifyValidCond() &&
         parseUpdateExtraAttrs() &&
         parseUpdateExtraChildren();
 }
@@ -883,10 +884,6 @@ bool ParseMessageImpl::parseReplaceFields()
             return false;
         }
 
-        if (!field->parseVerifySiblings(m_state.m_fields)) {
-            return false;
-        }
-
         replMembers.push_back(std::move(field));
     }
 
@@ -1028,10 +1025,6 @@ bool ParseMessageImpl::parseUpdateFields()
                 return false;
             }
 
-            if (!field->parseVerifySiblings(m_state.m_fields)) {
-                return false;
-            }
-
             m_state.m_fields.push_back(std::move(field));
         }
 
@@ -1040,6 +1033,10 @@ bool ParseMessageImpl::parseUpdateFields()
         }
     } while (false);
 
+    if (!ParseFieldImpl::parseVerifyMembersSiblings(m_state.m_fields)) {
+        return false;
+    }
+
     if (0 <= m_state.m_validateMinLength) {
         auto len = parseMinLength();
         if (static_cast<unsigned>(m_state.m_validateMinLength) != len) {
@@ -1275,6 +1272,12 @@ bool ParseMessageImpl::parseCopyReadCond()
     return true;
 }
 
+bool ParseMessageImpl::parseVerifyValidCond() const
+{
+    // Reused condition can refer to fields which were left out or replaced.
+    return (!m_state.m_validCond) || m_state.m_validCond->parseVerify(m_state.m_fields, parseGetNode(), m_protocol);
+}
+
 bool ParseMessageImpl::parseCopyValidCond()
 {
     auto& prop = common::parseCopyValidCondFromStr();
diff --git a/lib/src/parse/ParseMessageImpl.h b/lib/src/parse/ParseMessageImpl.h
index 502efd4..0cabf6d 100644
--- a/lib/src/parse/ParseMessageImpl.h
+++ b/lib/src/parse/ParseMessageImpl.h
@@ -316,6 +316,7 @@ private:
     bool parseCopyConstruct();
     bool parseCopyReadCond();
     bool parseCopyValidCond();
+    bool parseVerifyValidCond() const;
     bool parseUpdateSingleConstruct();
     bool parseUpdateMultiConstruct();
     bool parseUpdateSingleReadCond();
-- 
2.43.0


From 039bdd8e38ca7fefcfc5e1c32d0811e801566139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:59 +0000
Subject: [PATCH 033/102] fix: leave removed fields out of reused messages

---
 lib/src/parse/ParseMessageImpl.cpp | 7 +++++++
 lib/src/parse/ParseMessageImpl.h   | 1 +
 2 files changed, 8 insertions(+)

diff --git a/lib/src/parse/ParseMessageImpl.cpp b/lib/src/parse/ParseMessageImpl.cpp
index 81cf75d..84d38a8 100644
--- a/lib/src/parse/ParseMessageImpl.cpp
+++ b/lib/src/parse/ParseMessageImpl.cpp
@@ -111,6 +111,7 @@ bool ParseMessageImpl::parse()
         parseUpdateValidateMinLength() &&
         parseUpdateFailOnInvalid() &&
         parseCopyFields() &&
+        parseUpdateInheritedFields() &&
         parseReplaceFields() &&
         parseUpdateFields() &&
         parseCopyAliases() &&
@@ -818,6 +819,12 @@ bool ParseMessageImpl::parseCopyFields()
         parseCloneFieldsFrom(*m_copyFieldsFromBundle);
     } while (false);
 
+    return true;
+}
+
+bool ParseMessageImpl::parseUpdateInheritedFields()
+{
+    // Applicable to the fields acquired both by "reuse" and "copyFieldsFrom"
     if (!m_state.m_fields.empty()) {
         m_state.m_fields.erase(
             std::remove_if(
diff --git a/lib/src/parse/ParseMessageImpl.h b/lib/src/parse/ParseMessageImpl.h
index 0cabf6d..542e1d5 100644
--- a/lib/src/parse/ParseMessageImpl.h
+++ b/lib/src/parse/ParseMessageImpl.h
@@ -298,6 +298,7 @@ private:
     bool parseUpdateValidateMinLength();
     bool parseUpdateFailOnInvalid();
     bool parseCopyFields();
+    bool parseUpdateInheritedFields();
     bool parseCopyAliases();
     bool parseReplaceFields();
     bool parseUpdateFields();
-- 
2.43.0


From c7f5cd80ecc1b6fd85b02ac8cc1493c447121e90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:07 +0000
Subject: [PATCH 034/102] fix: keep 'from' of sync layer valid when suffix
 layers are unsupported

---
 lib/src/parse/ParseSyncLayerImpl.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/src/parse/ParseSyncLayerImpl.cpp b/lib/src/parse/ParseSyncLayerImpl.cpp
index d49a7d2..3ec342b 100644
--- a/lib/src/parse/ParseSyncLayerImpl.cpp
+++ b/lib/src/parse/ParseSyncLayerImpl.cpp
@@ -200,7 +200,7 @@ bool ParseSyncLayerImpl::parseUpdateVerifyBeforeReadInternal()
     if (!parseProtocol().parseIsSyncSuffixLayerSupported()) {
         parseLogWarning() << ParseXmlWrap::parseLogPrefix(parseGetNode()) <<
             "Property \"" << prop << "\" of <sync> layer is not supported for selected dslVersion, ignoring...";
-        m_from = nullptr;
+        m_from = &common::parseEmptyString();
         return true;
     }
 
@@ -235,7 +235,7 @@ bool ParseSyncLayerImpl::parseUpdateFromInternal()
     if (!parseProtocol().parseIsSyncSuffixLayerSupported()) {
         parseLogWarning() << ParseXmlWrap::parseLogPrefix(parseGetNode()) <<
             "Property \"" << prop << "\" of <sync> layer is not supported for selected dslVersion, ignoring...";
-        m_from = nullptr;
+        m_from = &common::parseEmptyString();
         return true;
     }
 
-- 
2.43.0


From bad95a5c5027aada4b732342a7a427ed9f42200f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:09 +0000
Subject: [PATCH 035/102] fix: reject the lowest 64-bit value of serOffset like
 the others that do not fit

---
 lib/src/parse/ParseIntFieldImpl.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/parse/ParseIntFieldImpl.cpp b/lib/src/parse/ParseIntFieldImpl.cpp
index 0e301b9..5d99d77 100644
--- a/lib/src/parse/ParseIntFieldImpl.cpp
+++ b/lib/src/parse/ParseIntFieldImpl.cpp
@@ -696,7 +696,7 @@ bool ParseIntFieldImpl::parseUpdateMinMaxValues()
 
         auto diff = (m_state.m_typeAllowedMaxValue - m_state.m_typeAllowedMinValue);
         assert(diff <= static_cast<decltype(diff)>(std::numeric_limits<std::uint32_t>::max()));
-        if (std::abs(m_state.m_serOffset) < diff) {
+        if ((-diff < m_state.m_serOffset) && (m_state.m_serOffset < diff)) {
             break;
         }
 
-- 
2.43.0


From b7c79fb13f7ada6099cc085c0d72f3729762303e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:50 +0000
Subject: [PATCH 036/102] fix: reject bitfields with an empty list of members

---
 lib/src/parse/ParseBitfieldFieldImpl.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/src/parse/ParseBitfieldFieldImpl.cpp b/lib/src/parse/ParseBitfieldFieldImpl.cpp
index 1b42a4c..ae20a12 100644
--- a/lib/src/parse/ParseBitfieldFieldImpl.cpp
+++ b/lib/src/parse/ParseBitfieldFieldImpl.cpp
@@ -345,6 +345,12 @@ bool ParseBitfieldFieldImpl::parseUpdateMembers()
                 return false;
             }
 
+            if (memberFieldsTypes.empty() && m_members.empty()) {
+                parseLogError() << ParseXmlWrap::parseLogPrefix(membersNodes.front()) <<
+                              "The \"" << common::parseBitparseFieldStr() << "\" must contain member fields.";
+                return false;
+            }
+
             // memberFieldsTypes is updated with the list from <members>
         }
 
-- 
2.43.0


From 0858d094bacb768c8c35cc3b1d2ba525fc19b41d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:43 +0000
Subject: [PATCH 037/102] fix: reject members and layers which differ only in
 the case of the first letter

---
 lib/src/parse/ParseFieldImpl.cpp | 15 +++++++++++----
 lib/src/parse/ParseFrameImpl.cpp |  2 +-
 lib/src/parse/parse_common.cpp   | 12 ++++++++++++
 lib/src/parse/parse_common.h     |  1 +
 4 files changed, 25 insertions(+), 5 deletions(-)

diff --git a/lib/src/parse/ParseFieldImpl.cpp b/lib/src/parse/ParseFieldImpl.cpp
index a710b37..6406e49 100644
--- a/lib/src/parse/ParseFieldImpl.cpp
+++ b/lib/src/parse/ParseFieldImpl.cpp
@@ -215,14 +215,21 @@ bool ParseFieldImpl::parseValidateMembersNames(
     const ParseFieldImpl::ParseFieldsList& fields,
     ParseLogger& logger)
 {
-    std::set<std::string> usedNames;
-    for (auto& f : fields) {
-        if (usedNames.find(f->parseName()) != usedNames.end()) {
+    for (auto iter = fields.begin(); iter != fields.end(); ++iter) {
+        auto& f = *iter;
+        auto sameNameIter =
+            std::find_if(
+                fields.begin(), iter,
+                [&f](auto& other)
+                {
+                    return common::parseIsSameAccessName(f->parseName(), other->parseName());
+                });
+
+        if (sameNameIter != iter) {
             commsdsl::parse::parseLogError(logger) << ParseXmlWrap::parseLogPrefix(f->parseGetNode()) <<
                 "Member field with name \"" << f->parseName() << "\" has already been defined.";
             return false;
         }
-        usedNames.insert(f->parseName());
     }
     return true;
 }
diff --git a/lib/src/parse/ParseFrameImpl.cpp b/lib/src/parse/ParseFrameImpl.cpp
index dc9c540..458d136 100644
--- a/lib/src/parse/ParseFrameImpl.cpp
+++ b/lib/src/parse/ParseFrameImpl.cpp
@@ -296,7 +296,7 @@ bool ParseFrameImpl::parseUpdateLayers()
                 m_layers.begin(), m_layers.end(),
                 [&layer](auto& l)
                 {
-                    return layer->parseName() == l->parseName();
+                    return common::parseIsSameAccessName(layer->parseName(), l->parseName());
                 });
 
         if (lIter != m_layers.end()) {
diff --git a/lib/src/parse/parse_common.cpp b/lib/src/parse/parse_common.cpp
index 2d7cf0e..257c1f6 100644
--- a/lib/src/parse/parse_common.cpp
+++ b/lib/src/parse/parse_common.cpp
@@ -1378,6 +1378,18 @@ void parseRemoveHeadingTrailingWhitespaces(std::string& str)
     str.erase(str.begin() + endPos + 1, str.end());
 }
 
+bool parseIsSameAccessName(const std::string& name1, const std::string& name2)
+{
+    // The case of the first letter is not preserved in the names of the generated classes and access functions
+    if ((name1.size() != name2.size()) || name1.empty()) {
+        return name1 == name2;
+    }
+
+    return
+        (std::tolower(static_cast<unsigned char>(name1[0])) == std::tolower(static_cast<unsigned char>(name2[0]))) &&
+        std::equal(name1.begin() + 1, name1.end(), name2.begin() + 1);
+}
+
 void parseNormaliseString(std::string& str)
 {
     static const std::string ReplaceChars("\t\r\n");
diff --git a/lib/src/parse/parse_common.h b/lib/src/parse/parse_common.h
index 2ba804e..999cb0b 100644
--- a/lib/src/parse/parse_common.h
+++ b/lib/src/parse/parse_common.h
@@ -206,6 +206,7 @@ void parseToLower(std::string& str);
 std::string parseToLowerCopy(const std::string& str);
 void parseRemoveHeadingTrailingWhitespaces(std::string& str);
 void parseNormaliseString(std::string& str);
+bool parseIsSameAccessName(const std::string& name1, const std::string& name2);
 std::pair<std::string, std::string> parseRange(const std::string& str, bool* ok = nullptr);
 
 bool parseIsValidName(const std::string& value);
-- 
2.43.0


From 8f021c51fb88dd14228a8038dfc78c6f90d18633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:40 +0000
Subject: [PATCH 038/102] fix: reject checksum layers with both range ends

---
 lib/src/parse/ParseChecksumLayerImpl.cpp | 7 +++++++
 lib/src/parse/ParseCustomLayerImpl.cpp   | 7 +++++++
 2 files changed, 14 insertions(+)

diff --git a/lib/src/parse/ParseChecksumLayerImpl.cpp b/lib/src/parse/ParseChecksumLayerImpl.cpp
index 3c936f6..6dc494f 100644
--- a/lib/src/parse/ParseChecksumLayerImpl.cpp
+++ b/lib/src/parse/ParseChecksumLayerImpl.cpp
@@ -76,6 +76,13 @@ bool ParseChecksumLayerImpl::parseVerifyImpl(const ParseLayerImpl::ParseLayersLi
         return false;
     }
 
+    if ((!parseFrom().empty()) && (!parseUntil().empty())) {
+        parseLogError() << ParseXmlWrap::parseLogPrefix(parseGetNode()) <<
+            "Properties \"" << common::parseFromStr() << "\" and \"" <<
+            common::parseUntilStr() << "\" of the checksum layer are mutually exclusive.";
+        return false;
+    }
+
     if (!parseFrom().empty()) {
         auto fromIdx = parseFindLayerIndex(layers, parseFrom());
         if (layers.size() <= fromIdx) {
diff --git a/lib/src/parse/ParseCustomLayerImpl.cpp b/lib/src/parse/ParseCustomLayerImpl.cpp
index 7c3319f..5c22d53 100644
--- a/lib/src/parse/ParseCustomLayerImpl.cpp
+++ b/lib/src/parse/ParseCustomLayerImpl.cpp
@@ -213,6 +213,13 @@ bool ParseCustomLayerImpl::parseVerifyChecksumInternal(const ParseLayersList& la
         return false;
     }
 
+    if ((!m_checksumFromLayer.empty()) && (!m_checksumUntilLayer.empty())) {
+        parseLogError() << ParseXmlWrap::parseLogPrefix(parseGetNode()) <<
+            "Properties \"" << common::parseChecksumFromStr() << "\" and \"" <<
+            common::parseChecksumUntilStr() << "\" of the checksum layer are mutually exclusive.";
+        return false;
+    }
+
     if (!m_checksumFromLayer.empty()) {
         auto fromIdx = parseFindLayerIndex(layers, m_checksumFromLayer);
         if (layers.size() <= fromIdx) {
-- 
2.43.0


From 6a6ade3bf33d6b08f4efdab33c19ccdb5758d499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:54 +0000
Subject: [PATCH 039/102] fix: do not abort when writing CMakeLists.txt of swig
 bindings without code to append

---
 app/commsdsl2swig/src/SwigCmake.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/app/commsdsl2swig/src/SwigCmake.cpp b/app/commsdsl2swig/src/SwigCmake.cpp
index a8f515a..6fe8e17 100644
--- a/app/commsdsl2swig/src/SwigCmake.cpp
+++ b/app/commsdsl2swig/src/SwigCmake.cpp
@@ -117,7 +117,7 @@ bool SwigCmake::swigWriteInternal() const
         "        $<$<CXX_COMPILER_ID:Clang>:-ftemplate-depth=2048 -fconstexpr-depth=4096 -fbracket-depth=2048>\n"
         "    )\n"
         "endforeach()\n\n"
-        "#^#APPEND#$#"
+        "#^#APPEND#$#\n"
         ;
 
     util::GenReplacementMap repl = {
-- 
2.43.0


From 75cf1400a5204ad2dd69a0ee935b4b6d0d1416bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:21 +0000
Subject: [PATCH 040/102] fix: report suffix layers before payload instead of
 aborting

---
 lib/src/gen/GenLayer.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/lib/src/gen/GenLayer.cpp b/lib/src/gen/GenLayer.cpp
index 12449ea..483ebb6 100644
--- a/lib/src/gen/GenLayer.cpp
+++ b/lib/src/gen/GenLayer.cpp
@@ -367,6 +367,13 @@ bool GenLayer::genAdjustSuffixLayersOrder(GenLayersAccessList& layers, bool& suc
                 return lPtr->genParseObj().parseKind() == commsdsl::parse::ParseLayer::ParseKind::Payload;
             });
 
+    if ((origPayloadIter == origLayers.end()) ||
+        (std::distance(origPayloadIter, thisOrigIter) < 0)) {
+        genGenerator().genLogger().genError("Frame layer \"" + genName() + "\" is expected to follow <payload>.");
+        success = false;
+        return false;
+    }
+
     auto thisIter =
         std::find_if(
             layers.begin(), layers.end(),
-- 
2.43.0


From ae8422aae7d2f7b05415fd3c8be06e67b8ac07bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:21 +0000
Subject: [PATCH 041/102] fix: unify only existing valid ranges of int fields,
 in the order of their values

---
 app/commsdsl2comms/src/CommsEnumField.cpp |  2 +-
 app/commsdsl2comms/src/CommsIntField.cpp  | 33 +++++++++++++++++------
 2 files changed, 26 insertions(+), 9 deletions(-)

diff --git a/app/commsdsl2comms/src/CommsEnumField.cpp b/app/commsdsl2comms/src/CommsEnumField.cpp
index f3e233e..8ef01f0 100644
--- a/app/commsdsl2comms/src/CommsEnumField.cpp
+++ b/app/commsdsl2comms/src/CommsEnumField.cpp
@@ -1259,7 +1259,7 @@ void CommsEnumField::commsAddValidRangesOptInternal(GenStringsList& opts) const
     auto type = obj.parseType();
     bool bigUnsigned =
         (type == commsdsl::parse::ParseEnumField::ParseType::Uint64) ||
-        ((type != commsdsl::parse::ParseEnumField::ParseType::Uintvar) && (obj.parseMaxLength() >= sizeof(std::int64_t)));
+        (type == commsdsl::parse::ParseEnumField::ParseType::Uintvar);
 
     bool validCheckVersion =
         genGenerator().genSchemaOf(*this).genVersionDependentCode() &&
diff --git a/app/commsdsl2comms/src/CommsIntField.cpp b/app/commsdsl2comms/src/CommsIntField.cpp
index 975805f..a1b7066 100644
--- a/app/commsdsl2comms/src/CommsIntField.cpp
+++ b/app/commsdsl2comms/src/CommsIntField.cpp
@@ -919,16 +919,38 @@ void CommsIntField::commsAddValidRangesOptInternal(GenStringsList& opts) const
     auto type = obj.parseType();
     bool bigUnsigned =
         (type == commsdsl::parse::ParseIntField::ParseType::Uint64) ||
-        ((type != commsdsl::parse::ParseIntField::ParseType::Uintvar) && (obj.parseMaxLength() >= sizeof(std::int64_t)));
+        (type == commsdsl::parse::ParseIntField::ParseType::Uintvar);
 
     bool validCheckVersion =
         genGenerator().genSchemaOf(*this).genVersionDependentCode() &&
         obj.parseValidCheckVersion();
 
     if (!validCheckVersion) {
+        // ranges that do not exist mustn't be unified with those that do
+        validRanges.erase(
+            std::remove_if(
+                validRanges.begin(), validRanges.end(),
+                [this](auto& r)
+                {
+                    return !genGenerator().genDoesElementExist(r.m_sinceVersion, r.m_deprecatedSince, true);
+                }),
+            validRanges.end());
+
+        // ranges introduced in different versions are not sorted by value
+        std::sort(
+            validRanges.begin(), validRanges.end(),
+            [bigUnsigned](auto& r1, auto& r2)
+            {
+                if (bigUnsigned) {
+                    return static_cast<std::uintmax_t>(r1.m_min) < static_cast<std::uintmax_t>(r2.m_min);
+                }
+
+                return r1.m_min < r2.m_min;
+            });
+
         // unify
         std::size_t idx = 0U;
-        while (idx < (validRanges.size() - 1U)) {
+        while ((idx + 1U) < validRanges.size()) {
             auto& thisRange = validRanges[idx];
             auto& nextRange = validRanges[idx + 1];
 
@@ -938,12 +960,7 @@ void CommsIntField::commsAddValidRangesOptInternal(GenStringsList& opts) const
                     static_cast<void>(min1);
                     static_cast<void>(max2);
                     assert(min1 <= min2);
-                    if (min2 <= (max1 + 1)) {
-                        assert(max1 <= max2);
-                        return true;
-                    }
-
-                    return false;
+                    return (min2 <= max1) || ((min2 - 1) <= max1);
                 };
 
             bool merge = false;
-- 
2.43.0


From 47db519bd52192313ca1aed4a28c176e8024800e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:00 +0000
Subject: [PATCH 042/102] fix: prepare interfaces before the messages which
 refer to their fields

---
 lib/src/gen/GenInterface.cpp | 22 +++++++++++++++++++++-
 lib/src/gen/GenSchema.cpp    | 10 ++++++++++
 2 files changed, 31 insertions(+), 1 deletion(-)

diff --git a/lib/src/gen/GenInterface.cpp b/lib/src/gen/GenInterface.cpp
index cb43266..9b8f2d2 100644
--- a/lib/src/gen/GenInterface.cpp
+++ b/lib/src/gen/GenInterface.cpp
@@ -130,12 +130,23 @@ public:
         m_referenced = value;
     }
 
+    bool genIsPrepared() const
+    {
+        return m_prepared;
+    }
+
+    void genSetPrepared()
+    {
+        m_prepared = true;
+    }
+
 private:
     GenGenerator& m_generator;
     ParseInterface m_parseObj;
     GenElem* m_parent = nullptr;
     GenFieldsList m_fields;
     bool m_referenced = false;
+    bool m_prepared = false;
 };
 
 GenInterface::GenInterface(GenGenerator& generator, ParseInterface parseObj, GenElem* parent) :
@@ -153,6 +164,10 @@ bool GenInterface::genCreateAll()
 
 bool GenInterface::genPrepare()
 {
+    if (m_impl->genIsPrepared()) {
+        return true;
+    }
+
     if (!m_impl->genPrepare()) {
         return false;
     }
@@ -161,7 +176,12 @@ bool GenInterface::genPrepare()
         return true;
     }
 
-    return genPrepareImpl();
+    if (!genPrepareImpl()) {
+        return false;
+    }
+
+    m_impl->genSetPrepared();
+    return true;
 }
 
 bool GenInterface::genWrite() const
diff --git a/lib/src/gen/GenSchema.cpp b/lib/src/gen/GenSchema.cpp
index 06e460d..1dd3b90 100644
--- a/lib/src/gen/GenSchema.cpp
+++ b/lib/src/gen/GenSchema.cpp
@@ -290,6 +290,16 @@ public:
             m_mainNamespace = m_origNamespace;
         }
 
+        // Messages can reference fields of the interfaces defined in any namespace
+        for (auto& n : m_namespaces) {
+            assert(n);
+            for (auto* i : n->genGetAllInterfaces()) {
+                if (!const_cast<GenInterface*>(i)->genPrepare()) {
+                    return false;
+                }
+            }
+        }
+
         bool namespacesResult =
             std::all_of(
                 m_namespaces.begin(), m_namespaces.end(),
-- 
2.43.0


From 36a9a260fcac4dc62017dfcfc60eb3c5e736ede3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:03 +0000
Subject: [PATCH 043/102] fix: generate elements of nested namespaces inside
 all the enclosing namespaces

---
 lib/src/gen/comms.cpp | 57 ++++++++++++++++---------------------------
 1 file changed, 21 insertions(+), 36 deletions(-)

diff --git a/lib/src/gen/comms.cpp b/lib/src/gen/comms.cpp
index 4343d97..0d7a1a4 100644
--- a/lib/src/gen/comms.cpp
+++ b/lib/src/gen/comms.cpp
@@ -76,6 +76,18 @@ std::string genScopeForElement(
     return result;
 }
 
+std::vector<std::string> genNamespaceSubElemsInternal(const GenNamespace& ns)
+{
+    std::vector<std::string> result;
+    for (const GenElem* elem = &ns; elem != nullptr; elem = elem->genGetParent()) {
+        if ((elem->genElemType() == GenElem::GenType_Namespace) && (!elem->genName().empty())) {
+            result.insert(result.begin(), elem->genName());
+        }
+    }
+
+    return result;
+}
+
 void genAddElemNamespaceScopeInternal(
     GenElem::GenType elemType,
     const GenElem* parent,
@@ -372,10 +384,7 @@ std::string genScopeForInput(
     bool addMainNamespace,
     bool addElement)
 {
-    std::vector<std::string> subElems;
-    if (!ns.genName().empty()) {
-        subElems.push_back(ns.genName());
-    }
+    auto subElems = genNamespaceSubElemsInternal(ns);
     subElems.push_back(strings::genInputNamespaceStr());
 
     return genScopeForElement(name, generator, subElems, addMainNamespace, addElement);
@@ -388,10 +397,7 @@ std::string genScopeForFactory(
     bool addMainNamespace,
     bool addElement)
 {
-    std::vector<std::string> subElems;
-    if (!ns.genName().empty()) {
-        subElems.push_back(ns.genName());
-    }
+    auto subElems = genNamespaceSubElemsInternal(ns);
     subElems.push_back(strings::genFactoryNamespaceStr());
 
     return genScopeForElement(name, generator, subElems, addMainNamespace, addElement);
@@ -404,10 +410,7 @@ std::string genScopeForDispatch(
     bool addMainNamespace,
     bool addElement)
 {
-    std::vector<std::string> subElems;
-    if (!ns.genName().empty()) {
-        subElems.push_back(ns.genName());
-    }
+    auto subElems = genNamespaceSubElemsInternal(ns);
     subElems.push_back(strings::genCispatchNamespaceStr());
 
     return genScopeForElement(name, generator, subElems, addMainNamespace, addElement);
@@ -431,10 +434,7 @@ std::string genScopeForNamespaceMember(
     bool addMainNamespace,
     bool addElement)
 {
-    std::vector<std::string> subElems;
-    if (!ns.genName().empty()) {
-        subElems.push_back(ns.genName());
-    }
+    auto subElems = genNamespaceSubElemsInternal(ns);
 
     return genScopeForElement(name, generator, subElems, addMainNamespace, addElement);
 }
@@ -511,10 +511,7 @@ std::string genRelHeaderForOptions(const std::string& name, const GenGenerator&
 
 std::string genRelHeaderForDispatch(const std::string& name, const GenGenerator& generator, const GenNamespace& ns)
 {
-    std::vector<std::string> subElems;
-    if (!ns.genName().empty()) {
-        subElems.push_back(ns.genName());
-    }
+    auto subElems = genNamespaceSubElemsInternal(ns);
 
     subElems.push_back(strings::genCispatchNamespaceStr());
     return genScopeForElement(name, generator, subElems, true, true, GenPathSep) + strings::genCppHeaderSuffixStr();
@@ -522,10 +519,7 @@ std::string genRelHeaderForDispatch(const std::string& name, const GenGenerator&
 
 std::string genRelHeaderForFactory(const std::string& name, const GenGenerator& generator, const GenNamespace& ns)
 {
-    std::vector<std::string> subElems;
-    if (!ns.genName().empty()) {
-        subElems.push_back(ns.genName());
-    }
+    auto subElems = genNamespaceSubElemsInternal(ns);
 
     subElems.push_back(strings::genFactoryNamespaceStr());
     return genScopeForElement(name, generator, subElems, true, true, GenPathSep) + strings::genCppHeaderSuffixStr();
@@ -539,20 +533,14 @@ std::string genRelHeaderForMsgId(const std::string& name, const GenGenerator& ge
 
 std::string genRelHeaderForNamespaceMember(const std::string& name, const GenGenerator& generator, const GenNamespace& ns, bool addMainNamespace)
 {
-    std::vector<std::string> subElems;
-    if (!ns.genName().empty()) {
-        subElems.push_back(ns.genName());
-    }
+    auto subElems = genNamespaceSubElemsInternal(ns);
 
     return genScopeForElement(name, generator, subElems, addMainNamespace, true, GenPathSep) + strings::genCppHeaderSuffixStr();
 }
 
 std::string genRelSourceForNamespaceMember(const std::string& name, const GenGenerator& generator, const GenNamespace& ns, bool addMainNamespace)
 {
-    std::vector<std::string> subElems;
-    if (!ns.genName().empty()) {
-        subElems.push_back(ns.genName());
-    }
+    auto subElems = genNamespaceSubElemsInternal(ns);
 
     return genScopeForElement(name, generator, subElems, addMainNamespace, true, GenPathSep) + strings::genCppSourceSuffixStr();
 }
@@ -579,10 +567,7 @@ std::string genRelHeaderForChecksum(const std::string& name, const GenGenerator&
 
 std::string genRelHeaderForInput(const std::string& name, const GenGenerator& generator, const GenNamespace& ns, bool addMainNamespace)
 {
-    std::vector<std::string> subElems;
-    if (!ns.genName().empty()) {
-        subElems.push_back(ns.genName());
-    }
+    auto subElems = genNamespaceSubElemsInternal(ns);
 
     subElems.push_back(strings::genInputNamespaceStr());
 
-- 
2.43.0


From 8eedcc49e83f12298429a7f99f349d2e24bf233e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:03 +0000
Subject: [PATCH 044/102] fix: report failure to write the options files

---
 app/commsdsl2comms/src/CommsDefaultOptions.cpp | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/app/commsdsl2comms/src/CommsDefaultOptions.cpp b/app/commsdsl2comms/src/CommsDefaultOptions.cpp
index 06f411c..a713a34 100644
--- a/app/commsdsl2comms/src/CommsDefaultOptions.cpp
+++ b/app/commsdsl2comms/src/CommsDefaultOptions.cpp
@@ -242,8 +242,7 @@ bool CommsDefaultOptions::commsWriteDefaultOptionsInternal() const
         repl["ORIG"] = strings::genOrigSuffixStr();
     }
 
-    commsWriteFileInternal(strings::genDefaultOptionsClassStr(), m_commsGenerator, util::genProcessTemplate(Templ, repl, true));
-    return true;
+    return commsWriteFileInternal(strings::genDefaultOptionsClassStr(), m_commsGenerator, util::genProcessTemplate(Templ, repl, true));
 }
 
 bool CommsDefaultOptions::commsWriteClientDefaultOptionsInternal() const
@@ -263,8 +262,7 @@ bool CommsDefaultOptions::commsWriteClientDefaultOptionsInternal() const
         repl["ORIG"] = strings::genOrigSuffixStr();
     }
 
-    commsWriteFileInternal(name, m_commsGenerator, util::genProcessTemplate(commsExtOptionsTempl(), repl, true));
-    return true;
+    return commsWriteFileInternal(name, m_commsGenerator, util::genProcessTemplate(commsExtOptionsTempl(), repl, true));
 }
 
 bool CommsDefaultOptions::commsWriteServerDefaultOptionsInternal() const
@@ -284,8 +282,7 @@ bool CommsDefaultOptions::commsWriteServerDefaultOptionsInternal() const
         repl["ORIG"] = strings::genOrigSuffixStr();
     }
 
-    commsWriteFileInternal(name, m_commsGenerator, util::genProcessTemplate(commsExtOptionsTempl(), repl, true));
-    return true;
+    return commsWriteFileInternal(name, m_commsGenerator, util::genProcessTemplate(commsExtOptionsTempl(), repl, true));
 }
 
 bool CommsDefaultOptions::commsWriteDataViewDefaultOptionsInternal() const
@@ -305,8 +302,7 @@ bool CommsDefaultOptions::commsWriteDataViewDefaultOptionsInternal() const
         repl["ORIG"] = strings::genOrigSuffixStr();
     }
 
-    commsWriteFileInternal(name, m_commsGenerator, util::genProcessTemplate(commsExtOptionsTempl(), repl, true));
-    return true;
+    return commsWriteFileInternal(name, m_commsGenerator, util::genProcessTemplate(commsExtOptionsTempl(), repl, true));
 }
 
 bool CommsDefaultOptions::commsWriteBareMetalDefaultOptionsInternal() const
@@ -334,8 +330,7 @@ bool CommsDefaultOptions::commsWriteBareMetalDefaultOptionsInternal() const
         repl["ORIG"] = strings::genOrigSuffixStr();
     }
 
-    commsWriteFileInternal(name, m_commsGenerator, util::genProcessTemplate(commsExtOptionsTempl(), repl, true));
-    return true;
+    return commsWriteFileInternal(name, m_commsGenerator, util::genProcessTemplate(commsExtOptionsTempl(), repl, true));
 }
 
 bool CommsDefaultOptions::commsWriteMsgFactoryDefaultOptionsInternal() const
@@ -518,8 +513,7 @@ bool CommsDefaultOptions::commsWriteSingleMsgFactoryDefaultOptionsInternal(
         repl["ORIG"] = strings::genOrigSuffixStr();
     }
 
-    commsWriteFileInternal(name, m_commsGenerator, util::genProcessTemplate(commsMsgFactoryOptionsTempl(), repl, true));
-    return true;
+    return commsWriteFileInternal(name, m_commsGenerator, util::genProcessTemplate(commsMsgFactoryOptionsTempl(), repl, true));
 }
 
 } // namespace commsdsl2comms
\ No newline at end of file
-- 
2.43.0


From 8b9da6301a0fe7f8576127a93c6c24b8f9645d48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:03 +0000
Subject: [PATCH 045/102] fix: generate input bundles of all the namespaces
 with frames

---
 app/commsdsl2comms/src/CommsNamespace.cpp | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/app/commsdsl2comms/src/CommsNamespace.cpp b/app/commsdsl2comms/src/CommsNamespace.cpp
index 0979199..e9f289b 100644
--- a/app/commsdsl2comms/src/CommsNamespace.cpp
+++ b/app/commsdsl2comms/src/CommsNamespace.cpp
@@ -425,15 +425,22 @@ bool CommsNamespace::genWriteImpl() const
         return false;
     }
 
-    if ((!genHasFramesRecursive()) ||
-        (!genHasMessagesRecursive())) {
+    if (!genHasFramesRecursive()) {
+        return true;
+    }
+
+    // The definitions of frames refer to the input messages, even if there are none
+    if (!m_input.commsWrite()) {
+        return false;
+    }
+
+    if (!genHasMessagesRecursive()) {
         return true;
     }
 
     return
         m_dispatch.commsWrite() &&
-        m_factory.commsWrite() &&
-        m_input.commsWrite();
+        m_factory.commsWrite();
 }
 
 std::string CommsNamespace::commsOptionsInternal(
-- 
2.43.0


From 24188645d557a50796d3261ccb6050bb5c44b1bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:03 +0000
Subject: [PATCH 046/102] fix: fail instead of crashing when a referenced field
 cannot be prepared

---
 lib/src/gen/GenDataField.cpp     |  5 ++++-
 lib/src/gen/GenGenerator.cpp     |  8 ++++++++
 lib/src/gen/GenLayer.cpp         |  5 ++++-
 lib/src/gen/GenListField.cpp     | 25 ++++++++++++++++++++-----
 lib/src/gen/GenOptionalField.cpp |  5 ++++-
 lib/src/gen/GenRefField.cpp      |  1 -
 lib/src/gen/GenSchema.cpp        |  8 ++++++++
 lib/src/gen/GenStringField.cpp   |  5 ++++-
 lib/src/gen/GenSyncLayer.cpp     |  5 ++++-
 9 files changed, 56 insertions(+), 11 deletions(-)

diff --git a/lib/src/gen/GenDataField.cpp b/lib/src/gen/GenDataField.cpp
index 33cb891..42a732a 100644
--- a/lib/src/gen/GenDataField.cpp
+++ b/lib/src/gen/GenDataField.cpp
@@ -48,7 +48,10 @@ public:
         auto prefix = m_dataParseObj.parseLengthPrefixField();
         if (!prefix.parseExternalRef().empty()) {
             m_externalPrefixField = m_generator.genFindField(prefix.parseExternalRef());
-            assert(m_externalPrefixField != nullptr);
+            if (m_externalPrefixField == nullptr) {
+                return false;
+            }
+
             return true;
         }
 
diff --git a/lib/src/gen/GenGenerator.cpp b/lib/src/gen/GenGenerator.cpp
index 9cf55fb..1a5160a 100644
--- a/lib/src/gen/GenGenerator.cpp
+++ b/lib/src/gen/GenGenerator.cpp
@@ -875,6 +875,10 @@ GenField* GenGenerator::genFindField(const std::string& externalRef)
 {
     auto* field = m_impl->genFindField(externalRef);
     do {
+        if (field == nullptr) {
+            break;
+        }
+
         if (field->genIsPrepared()) {
             break;
         }
@@ -898,6 +902,10 @@ GenMessage* GenGenerator::genGindMessage(const std::string& externalRef)
 {
     auto* msg = m_impl->genGindMessage(externalRef);
     do {
+        if (msg == nullptr) {
+            break;
+        }
+
         if (msg->genIsPrepared()) {
             break;
         }
diff --git a/lib/src/gen/GenLayer.cpp b/lib/src/gen/GenLayer.cpp
index 483ebb6..5228cf7 100644
--- a/lib/src/gen/GenLayer.cpp
+++ b/lib/src/gen/GenLayer.cpp
@@ -63,7 +63,10 @@ public:
         auto extRef = dslField.parseExternalRef();
         if (!extRef.empty()) {
             m_externalField = m_generator.genFindField(extRef);
-            assert(m_externalField != nullptr);
+            if (m_externalField == nullptr) {
+                return false;
+            }
+
             m_externalField->genSetReferenced();
             return true;
         }
diff --git a/lib/src/gen/GenListField.cpp b/lib/src/gen/GenListField.cpp
index 0834ef1..492236f 100644
--- a/lib/src/gen/GenListField.cpp
+++ b/lib/src/gen/GenListField.cpp
@@ -47,7 +47,10 @@ public:
             assert(elementField.parseValid());
             if (!elementField.parseExternalRef().empty()) {
                 m_externalElementField = m_generator.genFindField(elementField.parseExternalRef());
-                assert(m_externalElementField != nullptr);
+                if (m_externalElementField == nullptr) {
+                    return false;
+                }
+
                 break;
             }
 
@@ -65,7 +68,10 @@ public:
             auto prefix = m_parseObj.parseCountPrefixField();
             if (!prefix.parseExternalRef().empty()) {
                 m_externalCountPrefixField = m_generator.genFindField(prefix.parseExternalRef());
-                assert(m_externalCountPrefixField != nullptr);
+                if (m_externalCountPrefixField == nullptr) {
+                    return false;
+                }
+
                 break;
             }
 
@@ -92,7 +98,10 @@ public:
             auto prefix = m_parseObj.parseLengthPrefixField();
             if (!prefix.parseExternalRef().empty()) {
                 m_externalLengthPrefixField = m_generator.genFindField(prefix.parseExternalRef());
-                assert(m_externalLengthPrefixField != nullptr);
+                if (m_externalLengthPrefixField == nullptr) {
+                    return false;
+                }
+
                 break;
             }
 
@@ -116,7 +125,10 @@ public:
             auto prefix = m_parseObj.parseElemLengthPrefixField();
             if (!prefix.parseExternalRef().empty()) {
                 m_externalElemLengthPrefixField = m_generator.genFindField(prefix.parseExternalRef());
-                assert(m_externalElemLengthPrefixField != nullptr);
+                if (m_externalElemLengthPrefixField == nullptr) {
+                    return false;
+                }
+
                 break;
             }
 
@@ -157,7 +169,10 @@ public:
             auto suffix = m_parseObj.parseTermSuffixField();
             if (!suffix.parseExternalRef().empty()) {
                 m_externalTermSuffixField = m_generator.genFindField(suffix.parseExternalRef());
-                assert(m_externalTermSuffixField != nullptr);
+                if (m_externalTermSuffixField == nullptr) {
+                    return false;
+                }
+
                 break;
             }
 
diff --git a/lib/src/gen/GenOptionalField.cpp b/lib/src/gen/GenOptionalField.cpp
index e79fd20..2437c8e 100644
--- a/lib/src/gen/GenOptionalField.cpp
+++ b/lib/src/gen/GenOptionalField.cpp
@@ -46,7 +46,10 @@ public:
 
         if (!field.parseExternalRef().empty()) {
             m_externalField = m_generator.genFindField(field.parseExternalRef());
-            assert(m_externalField != nullptr);
+            if (m_externalField == nullptr) {
+                return false;
+            }
+
             return true;
         }
 
diff --git a/lib/src/gen/GenRefField.cpp b/lib/src/gen/GenRefField.cpp
index 37eea25..4718934 100644
--- a/lib/src/gen/GenRefField.cpp
+++ b/lib/src/gen/GenRefField.cpp
@@ -59,7 +59,6 @@ public:
 
         m_referencedField = m_generator.genFindField(fieldObj.parseExternalRef());
         if (m_referencedField == nullptr) {
-            assert(false);
             return false;
         }
 
diff --git a/lib/src/gen/GenSchema.cpp b/lib/src/gen/GenSchema.cpp
index 1dd3b90..639a79d 100644
--- a/lib/src/gen/GenSchema.cpp
+++ b/lib/src/gen/GenSchema.cpp
@@ -563,6 +563,10 @@ GenField* GenSchema::genFindField(const std::string& externalRef)
 {
     auto* field = m_impl->genFindField(externalRef);
     do {
+        if (field == nullptr) {
+            break;
+        }
+
         if (field->genIsPrepared()) {
             break;
         }
@@ -586,6 +590,10 @@ GenMessage* GenSchema::genGindMessage(const std::string& externalRef)
 {
     auto* msg = m_impl->genGindMessage(externalRef);
     do {
+        if (msg == nullptr) {
+            break;
+        }
+
         if (msg->genIsPrepared()) {
             break;
         }
diff --git a/lib/src/gen/GenStringField.cpp b/lib/src/gen/GenStringField.cpp
index b4257fd..a61a526 100644
--- a/lib/src/gen/GenStringField.cpp
+++ b/lib/src/gen/GenStringField.cpp
@@ -50,7 +50,10 @@ public:
         auto prefix = m_parseObj.parseLengthPrefixField();
         if (!prefix.parseExternalRef().empty()) {
             m_externalPrefixField = m_generator.genFindField(prefix.parseExternalRef());
-            assert(m_externalPrefixField != nullptr);
+            if (m_externalPrefixField == nullptr) {
+                return false;
+            }
+
             return true;
         }
 
diff --git a/lib/src/gen/GenSyncLayer.cpp b/lib/src/gen/GenSyncLayer.cpp
index 0abd6db..b47eb55 100644
--- a/lib/src/gen/GenSyncLayer.cpp
+++ b/lib/src/gen/GenSyncLayer.cpp
@@ -51,7 +51,10 @@ public:
             assert(escField.parseValid());
             if (!escField.parseExternalRef().empty()) {
                 m_externalEscField = m_generator.genFindField(escField.parseExternalRef());
-                assert(m_externalEscField != nullptr);
+                if (m_externalEscField == nullptr) {
+                    return false;
+                }
+
                 break;
             }
 
-- 
2.43.0


From 56adc8d9b348f7416c88f7a9673a93160d8d3bc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:03 +0000
Subject: [PATCH 047/102] fix: select type of the message ids by the ids which
 are listed

---
 app/commsdsl2comms/src/CommsMsgId.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/app/commsdsl2comms/src/CommsMsgId.cpp b/app/commsdsl2comms/src/CommsMsgId.cpp
index bfc3d45..30b99f7 100644
--- a/app/commsdsl2comms/src/CommsMsgId.cpp
+++ b/app/commsdsl2comms/src/CommsMsgId.cpp
@@ -99,6 +99,10 @@ bool CommsMsgId::commsWrite() const
 std::string CommsMsgId::commsTypeInternal() const
 {
     auto allMsgIdFields = m_parent.genFindMessageIdFields();
+    if (allMsgIdFields.empty() && m_parent.genName().empty()) {
+        allMsgIdFields = m_commsGenerator.genCurrentSchema().genGetAllMessageIdFields();
+    }
+
     if (allMsgIdFields.size() == 1U) {
         auto* msgIdField = allMsgIdFields.front();
         assert(msgIdField->genParseObj().parseKind() == commsdsl::parse::ParseField::ParseKind::Enum);
@@ -108,6 +112,10 @@ std::string CommsMsgId::commsTypeInternal() const
     }
 
     auto allMessages = m_parent.genGetAllMessages();
+    if (allMessages.empty() && m_parent.genName().empty()) {
+        allMessages = m_commsGenerator.genCurrentSchema().genGetAllMessages();
+    }
+
     auto iter =
         std::max_element(
             allMessages.begin(), allMessages.end(),
-- 
2.43.0


From 7806ab3ca5403be25cf2acbd872be1aa4e9a073d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:03 +0000
Subject: [PATCH 048/102] fix: look for code of message factories where other
 injected code is

---
 lib/include/commsdsl/gen/comms.h | 2 +-
 lib/src/gen/comms.cpp            | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/include/commsdsl/gen/comms.h b/lib/include/commsdsl/gen/comms.h
index b3629e4..2231434 100644
--- a/lib/include/commsdsl/gen/comms.h
+++ b/lib/include/commsdsl/gen/comms.h
@@ -120,7 +120,7 @@ std::string genRelCommonHeaderPathFor(const GenElem& elem, const GenGenerator& g
 std::string genRelHeaderPathForField(const std::string& name, const GenGenerator& generator);
 std::string genRelHeaderForOptions(const std::string& name, const GenGenerator& generator, bool addMainNamespace = true);
 std::string genRelHeaderForDispatch(const std::string& name, const GenGenerator& generator, const GenNamespace& ns);
-std::string genRelHeaderForFactory(const std::string& name, const GenGenerator& generator, const GenNamespace& ns);
+std::string genRelHeaderForFactory(const std::string& name, const GenGenerator& generator, const GenNamespace& ns, bool addMainNamespace = true);
 std::string genRelHeaderForMsgId(const std::string& name, const GenGenerator& generator, const GenNamespace& ns);
 std::string genRelHeaderForNamespaceMember(const std::string& name, const GenGenerator& generator, const GenNamespace& ns, bool addMainNamespace = true);
 std::string genRelSourceForNamespaceMember(const std::string& name, const GenGenerator& generator, const GenNamespace& ns, bool addMainNamespace = true);
diff --git a/lib/src/gen/comms.cpp b/lib/src/gen/comms.cpp
index 0d7a1a4..f291e09 100644
--- a/lib/src/gen/comms.cpp
+++ b/lib/src/gen/comms.cpp
@@ -517,12 +517,12 @@ std::string genRelHeaderForDispatch(const std::string& name, const GenGenerator&
     return genScopeForElement(name, generator, subElems, true, true, GenPathSep) + strings::genCppHeaderSuffixStr();
 }
 
-std::string genRelHeaderForFactory(const std::string& name, const GenGenerator& generator, const GenNamespace& ns)
+std::string genRelHeaderForFactory(const std::string& name, const GenGenerator& generator, const GenNamespace& ns, bool addMainNamespace)
 {
     auto subElems = genNamespaceSubElemsInternal(ns);
 
     subElems.push_back(strings::genFactoryNamespaceStr());
-    return genScopeForElement(name, generator, subElems, true, true, GenPathSep) + strings::genCppHeaderSuffixStr();
+    return genScopeForElement(name, generator, subElems, addMainNamespace, true, GenPathSep) + strings::genCppHeaderSuffixStr();
 }
 
 // TODO: remove
@@ -718,7 +718,7 @@ std::string genInputCodeRelPathForFactory(const std::string& name, const GenGene
     return
         strings::genIncludeDirStr() + '/' +
         generator.genCurrentSchema().genOrigNamespace() + '/' +
-        comms::genRelHeaderForFactory(name, generator, ns);
+        comms::genRelHeaderForFactory(name, generator, ns, false);
 }
 
 std::string genInputCodeAbsPathForFactory(const std::string& name, const GenGenerator& generator, const GenNamespace& ns)
-- 
2.43.0


From e000972517fe30be4369bf4c785121fcb63b5e09 Mon Sep 17 00:00:00 2001
From: v <x@y>
Date: Fri, 20 Nov 2026 02:16:54 +0000
Subject: [PATCH 049/102] fix: refer only to enumerators which are generated

---
 app/commsdsl2comms/src/CommsEnumField.cpp | 70 +++++++++++++----------
 app/commsdsl2comms/src/CommsEnumField.h   |  3 +
 2 files changed, 43 insertions(+), 30 deletions(-)

diff --git a/app/commsdsl2comms/src/CommsEnumField.cpp b/app/commsdsl2comms/src/CommsEnumField.cpp
index 8ef01f0..0abf2b2 100644
--- a/app/commsdsl2comms/src/CommsEnumField.cpp
+++ b/app/commsdsl2comms/src/CommsEnumField.cpp
@@ -318,16 +318,8 @@ std::string CommsEnumField::commsDefValidFuncBodyImpl() const
 
         util::GenStringsList valuesStrings;
 
-        auto* msgIdNs = commsNamespaceForMsgId();
-        std::string prefix;
-        if (msgIdNs != nullptr) {
-            prefix = comms::genScopeFor(*msgIdNs, genGenerator()) + "::" + strings::genMsgIdPrefixStr();
-        }
-        else {
-            prefix = "ValueType::";
-        }
-
-        auto& revValues = obj.parseRevValues();
+        auto& values = obj.parseValues();
+        auto& revValues = genSortedRevValues();
         auto prevIter = revValues.end();
         for (auto iter = revValues.begin(); iter != revValues.end(); ++iter) {
 
@@ -335,7 +327,12 @@ std::string CommsEnumField::commsDefValidFuncBodyImpl() const
                 continue;
             }
 
-            valuesStrings.push_back(prefix + iter->second);
+            auto& info = values.at(*(iter->second));
+            if (!genGenerator().genDoesElementExist(info.m_sinceVersion, info.m_deprecatedSince, true)) {
+                continue;
+            }
+
+            valuesStrings.push_back(commsEnumeratorStrInternal(*(iter->second)));
             prevIter = iter;
         }
 
@@ -821,7 +818,7 @@ std::string CommsEnumField::commsCommonValueNamesMapFuncCodeInternal() const
 std::string CommsEnumField::commsCommonValueNamesMapDirectBodyInternal() const
 {
     auto obj = genEnumFieldParseObj();
-    auto& revValues = obj.parseRevValues();
+    auto revValues = commsExistingRevValuesInternal();
     auto& values = obj.parseValues();
     assert(!revValues.empty());
     auto& thisSchema = genGenerator().genSchemaOf(*this);
@@ -931,7 +928,7 @@ std::string CommsEnumField::commsCommonValueNamesMapBinSearchBodyInternal() cons
 std::string CommsEnumField::commsCommonBigUnsignedValueNameBinSearchPairsInternal() const
 {
     auto obj = genEnumFieldParseObj();
-    auto& revValues = obj.parseRevValues();
+    auto revValues = commsExistingRevValuesInternal();
     assert(!revValues.empty());
 
     std::vector<std::uintmax_t> valuesSeq;
@@ -971,11 +968,11 @@ std::string CommsEnumField::commsCommonBigUnsignedValueNameBinSearchPairsInterna
             };
 
         auto addElementNameFunc =
-            [&names, &v, &firstElem, &lastValue, getDisplayNameFunc](auto& infoPair)
+            [this, &names, &v, &firstElem, &lastValue, getDisplayNameFunc](auto& infoPair)
             {
                 auto str =
-                    "std::make_pair(ValueType::" +
-                    v.second + ", \"" + getDisplayNameFunc(infoPair) +
+                    "std::make_pair(" + commsEnumeratorStrInternal(v.second) +
+                    ", \"" + getDisplayNameFunc(infoPair) +
                     "\")";
                 names.push_back(std::move(str));
                 firstElem = false;
@@ -1016,10 +1013,9 @@ std::string CommsEnumField::commsCommonBigUnsignedValueNameBinSearchPairsInterna
 std::string CommsEnumField::commsCommonValueNameBinSearchPairsInternal() const
 {
     auto obj = genEnumFieldParseObj();
-    auto& revValues = obj.parseRevValues();
+    auto revValues = commsExistingRevValuesInternal();
     auto& values = obj.parseValues();
     assert(!revValues.empty());
-    auto* msgIdNs = commsNamespaceForMsgId();
 
     bool firstElem = true;
     std::intmax_t lastValue = std::numeric_limits<std::intmax_t>::min();
@@ -1044,22 +1040,12 @@ std::string CommsEnumField::commsCommonValueNameBinSearchPairsInternal() const
                 return infoPair.second.m_displayName;
             };
 
-        auto getValueStrFunc =
-            [this, msgIdNs](const std::string& s)
-            {
-                if (msgIdNs != nullptr) {
-                    return comms::genScopeFor(*msgIdNs, genGenerator()) + "::" + strings::genMsgIdPrefixStr() + s;
-                }
-
-                return "ValueType::" + s;
-            };
-
         auto addElementNameFunc =
-            [&names, &v, &firstElem, &lastValue, getDisplayNameFunc, &getValueStrFunc](auto& infoPair)
+            [this, &names, &v, &firstElem, &lastValue, getDisplayNameFunc](auto& infoPair)
             {
                 auto str =
                     "std::make_pair(" +
-                    getValueStrFunc(v.second) +
+                    commsEnumeratorStrInternal(v.second) +
                     ", \"" + getDisplayNameFunc(infoPair) +
                     "\")";
                 names.push_back(std::move(str));
@@ -1374,6 +1360,30 @@ void CommsEnumField::commsAddAvailableLengthLimitOptInternal(GenStringsList& opt
     }
 }
 
+std::string CommsEnumField::commsEnumeratorStrInternal(const std::string& name) const
+{
+    auto* msgIdNs = commsNamespaceForMsgId();
+    if (msgIdNs != nullptr) {
+        return comms::genScopeFor(*msgIdNs, genGenerator()) + "::" + strings::genMsgIdPrefixStr() + name;
+    }
+
+    return "ValueType::" + name;
+}
+
+CommsEnumField::CommsRevValues CommsEnumField::commsExistingRevValuesInternal() const
+{
+    auto obj = genEnumFieldParseObj();
+    auto& values = obj.parseValues();
+    CommsRevValues result;
+    for (auto& v : obj.parseRevValues()) {
+        auto& info = values.at(v.second);
+        if (genGenerator().genDoesElementExist(info.m_sinceVersion, info.m_deprecatedSince, false)) {
+            result.insert(v);
+        }
+    }
+    return result;
+}
+
 const CommsNamespace* CommsEnumField::commsNamespaceForMsgId() const
 {
     if (genParseObj().parseSemanticType() != commsdsl::parse::ParseField::ParseSemanticType::MessageId) {
diff --git a/app/commsdsl2comms/src/CommsEnumField.h b/app/commsdsl2comms/src/CommsEnumField.h
index 0532838..b195098 100644
--- a/app/commsdsl2comms/src/CommsEnumField.h
+++ b/app/commsdsl2comms/src/CommsEnumField.h
@@ -72,6 +72,7 @@ private:
     };
 
     using CommsValidRangesList = std::vector<CommsRangeInfo>;
+    using CommsRevValues = commsdsl::parse::ParseEnumField::ParseRevValues;
 
     bool commsPrepareValidRangesInternal();
     bool commsIsDirectValueNameMappingInternal() const;
@@ -95,6 +96,8 @@ private:
     void commsAddValidRangesOptInternal(GenStringsList& opts) const;
     void commsAddAvailableLengthLimitOptInternal(GenStringsList& opts) const;
     const CommsNamespace* commsNamespaceForMsgId() const;
+    std::string commsEnumeratorStrInternal(const std::string& name) const;
+    CommsRevValues commsExistingRevValuesInternal() const;
 
     CommsValidRangesList m_validRanges;
 };
-- 
2.43.0


From 334151ee674368fe5edd01f674c653c6b1f04e7f Mon Sep 17 00:00:00 2001
From: v <x@y>
Date: Fri, 20 Nov 2026 02:17:13 +0000
Subject: [PATCH 050/102] fix: list only special values which exist in the
 selected version

---
 lib/src/gen/GenFloatField.cpp | 8 ++++++--
 lib/src/gen/GenIntField.cpp   | 8 ++++++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/lib/src/gen/GenFloatField.cpp b/lib/src/gen/GenFloatField.cpp
index 22c95ab..d5219a1 100644
--- a/lib/src/gen/GenFloatField.cpp
+++ b/lib/src/gen/GenFloatField.cpp
@@ -35,11 +35,15 @@ public:
     using ParseFloatField = GenFloatField::ParseFloatField;
     using GenSpecialsList = GenFloatField::GenSpecialsList;
 
-    bool genPrepare(ParseFloatField parseObj)
+    bool genPrepare(const GenGenerator& generator, ParseFloatField parseObj)
     {
         auto& dslSpecials = parseObj.parseSpecialValues();
         m_specialsSorted.reserve(dslSpecials.size());
         for (auto& s : dslSpecials) {
+            if (!generator.genDoesElementExist(s.second.m_sinceVersion, s.second.m_deprecatedSince, true)) {
+                continue;
+            }
+
             m_specialsSorted.emplace_back(s.first, s.second);
         }
 
@@ -128,7 +132,7 @@ const GenFloatField::GenSpecialsList& GenFloatField::genSpecialsSortedByValue()
 
 bool GenFloatField::genPrepareImpl()
 {
-    return m_impl->genPrepare(genFloatFieldParseObj());
+    return m_impl->genPrepare(genGenerator(), genFloatFieldParseObj());
 }
 
 GenFloatField::GenFieldRefInfo GenFloatField::genProcessInnerRefImpl(const std::string& refStr) const
diff --git a/lib/src/gen/GenIntField.cpp b/lib/src/gen/GenIntField.cpp
index 9d6eacd..f449490 100644
--- a/lib/src/gen/GenIntField.cpp
+++ b/lib/src/gen/GenIntField.cpp
@@ -34,11 +34,15 @@ public:
     using ParseIntField = GenIntField::ParseIntField;
     using GenSpecialsList = GenIntField::GenSpecialsList;
 
-    bool genPrepare(ParseIntField parseObj)
+    bool genPrepare(const GenGenerator& generator, ParseIntField parseObj)
     {
         auto& dslSpecials = parseObj.parseSpecialValues();
         m_specialsSorted.reserve(dslSpecials.size());
         for (auto& s : dslSpecials) {
+            if (!generator.genDoesElementExist(s.second.m_sinceVersion, s.second.m_deprecatedSince, true)) {
+                continue;
+            }
+
             m_specialsSorted.emplace_back(s.first, s.second);
         }
 
@@ -105,7 +109,7 @@ const GenIntField::GenSpecialsList& GenIntField::genSpecialsSortedByValue() cons
 
 bool GenIntField::genPrepareImpl()
 {
-    return m_impl->genPrepare(genIntFieldParseObj());
+    return m_impl->genPrepare(genGenerator(), genIntFieldParseObj());
 }
 
 GenIntField::GenFieldRefInfo GenIntField::genProcessInnerRefImpl(const std::string& refStr) const
-- 
2.43.0


From f88c0f2c1e6552cf6d8652765c9d44030a1f6e42 Mon Sep 17 00:00:00 2001
From: v <x@y>
Date: Fri, 20 Nov 2026 02:17:27 +0000
Subject: [PATCH 051/102] fix: read common key of variants only when the last
 member starts with it as well

---
 app/commsdsl2comms/src/CommsIntField.cpp     | 14 ++++++++++++++
 app/commsdsl2comms/src/CommsIntField.h       |  1 +
 app/commsdsl2comms/src/CommsVariantField.cpp | 19 +++++++++++++++++++
 3 files changed, 34 insertions(+)

diff --git a/app/commsdsl2comms/src/CommsIntField.cpp b/app/commsdsl2comms/src/CommsIntField.cpp
index a1b7066..7a8211b 100644
--- a/app/commsdsl2comms/src/CommsIntField.cpp
+++ b/app/commsdsl2comms/src/CommsIntField.cpp
@@ -143,6 +143,20 @@ bool CommsIntField::commsVariantIsPropKeyEquivalent(const CommsIntField& other)
     return thisDslObj.parseEndian() == otherDslObj.parseEndian();
 }
 
+bool CommsIntField::commsVariantIsSameSerialization(const CommsIntField& other) const
+{
+    auto thisDslObj = genIntFieldParseObj();
+    auto otherDslObj = other.genIntFieldParseObj();
+    return
+        (thisDslObj.parseType() == otherDslObj.parseType()) &&
+        (thisDslObj.parseEndian() == otherDslObj.parseEndian()) &&
+        (thisDslObj.parseMinLength() == otherDslObj.parseMinLength()) &&
+        (thisDslObj.parseMaxLength() == otherDslObj.parseMaxLength()) &&
+        (thisDslObj.parseSignExt() == otherDslObj.parseSignExt()) &&
+        (thisDslObj.parseSerOffset() == otherDslObj.parseSerOffset()) &&
+        (thisDslObj.parseIsPseudo() == otherDslObj.parseIsPseudo());
+}
+
 bool CommsIntField::genPrepareImpl()
 {
     return GenBase::genPrepareImpl() && commsPrepare();
diff --git a/app/commsdsl2comms/src/CommsIntField.h b/app/commsdsl2comms/src/CommsIntField.h
index d21bb52..86e0fe7 100644
--- a/app/commsdsl2comms/src/CommsIntField.h
+++ b/app/commsdsl2comms/src/CommsIntField.h
@@ -38,6 +38,7 @@ public:
     std::string commsVariantPropKeyValueStr() const;
     bool commsVariantIsValidPropKey() const;
     bool commsVariantIsPropKeyEquivalent(const CommsIntField& other) const;
+    bool commsVariantIsSameSerialization(const CommsIntField& other) const;
 
 protected:
     // GenBase overrides
diff --git a/app/commsdsl2comms/src/CommsVariantField.cpp b/app/commsdsl2comms/src/CommsVariantField.cpp
index 879db2b..4525071 100644
--- a/app/commsdsl2comms/src/CommsVariantField.cpp
+++ b/app/commsdsl2comms/src/CommsVariantField.cpp
@@ -121,6 +121,22 @@ bool commsPropKeysEquivalent(const CommsField& first, const CommsField& second)
     return static_cast<const CommsIntField&>(first).commsVariantIsPropKeyEquivalent(static_cast<const CommsIntField&>(second));
 }
 
+bool commsStartsWithKeyInternal(const CommsBundleField& bundle, const CommsField& propKey)
+{
+    assert(propKey.commsGenField().genParseObj().parseKind() == commsdsl::parse::ParseField::ParseKind::Int);
+    auto& members = bundle.commsMembers();
+    if (members.empty() ||
+        (members.front()->commsGenField().genParseObj().parseKind() != commsdsl::parse::ParseField::ParseKind::Int)) {
+        return false;
+    }
+
+    auto& first = static_cast<const CommsIntField&>(*members.front());
+    return
+        (!first.commsIsVersionOptional()) &&
+        (!first.commsHasGeneratedReadCode()) &&
+        static_cast<const CommsIntField&>(propKey).commsVariantIsSameSerialization(first);
+}
+
 const CommsField* commsGetReferenceFieldInternal(const CommsField* field)
 {
     while (field->commsGenField().genParseObj().parseKind() == commsdsl::parse::ParseField::ParseKind::Ref) {
@@ -1095,6 +1111,9 @@ std::string CommsVariantField::commsOptimizedReadKeyInternal() const
 
         if (!validPropKey) {
             // last "catch all" element
+            if (!commsStartsWithKeyInternal(bundle, *propKey)) {
+                return result;
+            }
             continue;
         }
 
-- 
2.43.0


From 1b946f0a9ec0f25d5819f87e2295ed2543f5360a Mon Sep 17 00:00:00 2001
From: v <x@y>
Date: Fri, 20 Nov 2026 02:17:47 +0000
Subject: [PATCH 052/102] fix: generate documentation of protocols without
 frames

---
 app/commsdsl2comms/src/CommsDoxygen.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/app/commsdsl2comms/src/CommsDoxygen.cpp b/app/commsdsl2comms/src/CommsDoxygen.cpp
index cbfd133..c881dd9 100644
--- a/app/commsdsl2comms/src/CommsDoxygen.cpp
+++ b/app/commsdsl2comms/src/CommsDoxygen.cpp
@@ -567,7 +567,9 @@ std::string CommsDoxygen::commsFrameDocInternal() const
         "///";
 
     auto frames = m_commsGenerator.genGetAllFrames();
-    assert(!frames.empty());
+    if (frames.empty()) {
+        return strings::genEmptyString();
+    }
 
     util::GenStringsList list;
     for (auto* f : frames) {
-- 
2.43.0


From 880864189220f2749e217394ec50feb028416a21 Mon Sep 17 00:00:00 2001
From: v <x@y>
Date: Fri, 20 Nov 2026 02:18:13 +0000
Subject: [PATCH 053/102] fix: handle protocols without frames in the C, test
 and tools generators

---
 app/commsdsl2c/src/CDoxygen.cpp                |  4 ++++
 app/commsdsl2test/src/TestGenerator.cpp        | 11 +++++++++++
 app/commsdsl2test/src/TestGenerator.h          |  1 +
 app/commsdsl2tools_qt/src/ToolsQtGenerator.cpp |  6 +++++-
 4 files changed, 21 insertions(+), 1 deletion(-)

diff --git a/app/commsdsl2c/src/CDoxygen.cpp b/app/commsdsl2c/src/CDoxygen.cpp
index cbe5100..1dd4a23 100644
--- a/app/commsdsl2c/src/CDoxygen.cpp
+++ b/app/commsdsl2c/src/CDoxygen.cpp
@@ -375,6 +375,10 @@ bool CDoxygen::cWriteMainpageInternal() const
 
 std::string CDoxygen::cInputDocInternal() const
 {
+    if (m_frames.empty()) {
+        return strings::genEmptyString();
+    }
+
     util::GenStringsList frameItems;
     for (auto* f : m_frames) {
         static const std::string Templ =
diff --git a/app/commsdsl2test/src/TestGenerator.cpp b/app/commsdsl2test/src/TestGenerator.cpp
index 8356c6b..e51ec55 100644
--- a/app/commsdsl2test/src/TestGenerator.cpp
+++ b/app/commsdsl2test/src/TestGenerator.cpp
@@ -43,6 +43,17 @@ const std::string& TestGenerator::testFileGeneratedComment()
     return Str;
 }
 
+bool TestGenerator::genPrepareImpl()
+{
+    genChooseProtocolSchema();
+    if (genGetAllFrames().empty()) {
+        genLogger().genError("At least one frame needs to be defined.");
+        return false;
+    }
+
+    return true;
+}
+
 bool TestGenerator::genWriteImpl()
 {
     assert(&genCurrentSchema() == &genProtocolSchema());
diff --git a/app/commsdsl2test/src/TestGenerator.h b/app/commsdsl2test/src/TestGenerator.h
index 8974f0b..66e13fd 100644
--- a/app/commsdsl2test/src/TestGenerator.h
+++ b/app/commsdsl2test/src/TestGenerator.h
@@ -27,6 +27,7 @@ public:
     static const std::string& testFileGeneratedComment();
 
 protected:
+    virtual bool genPrepareImpl() override;
     virtual bool genWriteImpl() override;
 
 private:
diff --git a/app/commsdsl2tools_qt/src/ToolsQtGenerator.cpp b/app/commsdsl2tools_qt/src/ToolsQtGenerator.cpp
index 3758be8..94f5e03 100644
--- a/app/commsdsl2tools_qt/src/ToolsQtGenerator.cpp
+++ b/app/commsdsl2tools_qt/src/ToolsQtGenerator.cpp
@@ -221,7 +221,11 @@ bool ToolsQtGenerator::genPrepareImpl()
 
         if (info.m_frame.empty()) {
             auto allFrames = genGetAllFrames();
-            assert(!allFrames.empty());
+            if (allFrames.empty()) {
+                genLogger().genError("At least one frame needs to be defined.");
+                return false;
+            }
+
             info.m_frame = allFrames.front()->genParseObj().parseExternalRef();
         }
 
-- 
2.43.0


From 2835ce70a6b611a207ad244c2309ddd1522fb701 Mon Sep 17 00:00:00 2001
From: v <x@y>
Date: Fri, 20 Nov 2026 02:22:27 +0000
Subject: [PATCH 054/102] fix: support unbounded valid ranges of float fields

---
 app/commsdsl2comms/src/CommsFloatField.cpp | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/app/commsdsl2comms/src/CommsFloatField.cpp b/app/commsdsl2comms/src/CommsFloatField.cpp
index f61763b..1433b84 100644
--- a/app/commsdsl2comms/src/CommsFloatField.cpp
+++ b/app/commsdsl2comms/src/CommsFloatField.cpp
@@ -41,6 +41,11 @@ bool commsIsLimit(double val)
     return std::isnan(val) || std::isinf(val);
 }
 
+bool commsIsSingleLimit(double min, double max)
+{
+    return std::isnan(min) || (std::isinf(min) && (min == max));
+}
+
 std::string commsLimitToString(double val)
 {
     static const std::string Prefix("std::numeric_limits<ValueType>::");
@@ -290,13 +295,10 @@ CommsFloatField::CommsIncludesList CommsFloatField::commsDefIncludesImpl() const
         }
 
         for (auto& r : obj.parseValidRanges()) {
-            hasLimits = commsIsLimit(r.m_min);
+            hasLimits = commsIsLimit(r.m_min) || commsIsLimit(r.m_max);
             if (hasLimits) {
-                assert(commsIsLimit(r.m_max));
                 break;
             }
-
-            assert(!commsIsLimit(r.m_max));
         }
 
     } while (false);
@@ -734,7 +736,7 @@ CommsFloatField::GenStringsList CommsFloatField::commsValidNormalConditionsInter
 
     auto& validRanges = obj.parseValidRanges();
     for (auto& r : validRanges) {
-        if (commsIsLimit(r.m_min)) {
+        if (commsIsSingleLimit(r.m_min, r.m_max)) {
             commsAddCondition(conditions, commsCmpToString(r.m_min, type));
             continue;
         }
@@ -792,7 +794,7 @@ CommsFloatField::GenStringsList CommsFloatField::commsValidVersionBasedCondition
 
     GenStringsList conditions;
     for (auto iter = validRanges.begin(); iter != verDepIter; ++iter) {
-        if (commsIsLimit(iter->m_min)) {
+        if (commsIsSingleLimit(iter->m_min, iter->m_max)) {
             commsAddCondition(conditions, commsCmpToString(iter->m_min, type));
             continue;
         }
@@ -817,7 +819,7 @@ CommsFloatField::GenStringsList CommsFloatField::commsValidVersionBasedCondition
 
         GenStringsList innerConditions;
         for (auto iter = verDepIter; iter != nextIter; ++iter) {
-            if (commsIsLimit(iter->m_min)) {
+            if (commsIsSingleLimit(iter->m_min, iter->m_max)) {
                 commsAddCondition(innerConditions, commsCmpToString(iter->m_min, type));
                 continue;
             }
-- 
2.43.0


From f044c25db4841dcca76b608ba03400e7596fae27 Mon Sep 17 00:00:00 2001
From: v <x@y>
Date: Fri, 20 Nov 2026 02:22:27 +0000
Subject: [PATCH 055/102] fix: report unresolvable force generated references
 instead of crashing

---
 lib/src/gen/GenField.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/gen/GenField.cpp b/lib/src/gen/GenField.cpp
index f0ca4e3..b31f06e 100644
--- a/lib/src/gen/GenField.cpp
+++ b/lib/src/gen/GenField.cpp
@@ -149,7 +149,7 @@ bool GenField::genPrepare()
         m_impl->genSetPrepared();
     }
 
-    if (genParseObj().parseIsForceGen()) {
+    if (result && genParseObj().parseIsForceGen()) {
         genSetReferenced();
     }
 
-- 
2.43.0


From 76b0ecf42c02922740f7cca9c746c9022d23363b Mon Sep 17 00:00:00 2001
From: v <x@y>
Date: Fri, 20 Nov 2026 02:22:44 +0000
Subject: [PATCH 056/102] fix: allow global references with messageId semantic
 type

---
 lib/src/gen/GenNamespace.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/lib/src/gen/GenNamespace.cpp b/lib/src/gen/GenNamespace.cpp
index d2ea9ed..09131bd 100644
--- a/lib/src/gen/GenNamespace.cpp
+++ b/lib/src/gen/GenNamespace.cpp
@@ -658,10 +658,8 @@ GenNamespace::GenFieldsAccessList GenNamespace::genFindMessageIdFields() const
             continue;
         }
 
-        if ((f->genParseObj().parseKind() != commsdsl::parse::ParseField::ParseKind::Enum) &&
-            (f->genParseObj().parseKind() != commsdsl::parse::ParseField::ParseKind::Int)) {
-            [[maybe_unused]] static constexpr bool Unexpected_kind = false;
-            assert(Unexpected_kind);
+        if (f->genParseObj().parseKind() != commsdsl::parse::ParseField::ParseKind::Enum) {
+            // Can be <ref> to <enum>, which doesn't define its own enumerators
             continue;
         }
 
-- 
2.43.0


From cdb0f562a67fc8911ff4df11c52f99531e47c783 Mon Sep 17 00:00:00 2001
From: v <x@y>
Date: Fri, 20 Nov 2026 02:24:39 +0000
Subject: [PATCH 057/102] fix: skip frames and messages without suitable
 interface in swig and emscripten

---
 app/commsdsl2emscripten/src/EmscriptenFrame.cpp |  8 ++++++++
 app/commsdsl2swig/src/SwigFrame.cpp             |  6 ++++++
 app/commsdsl2swig/src/SwigMessage.cpp           | 10 +++++++---
 app/commsdsl2swig/src/SwigNamespace.cpp         |  2 +-
 4 files changed, 22 insertions(+), 4 deletions(-)

diff --git a/app/commsdsl2emscripten/src/EmscriptenFrame.cpp b/app/commsdsl2emscripten/src/EmscriptenFrame.cpp
index 3f5207b..edc085f 100644
--- a/app/commsdsl2emscripten/src/EmscriptenFrame.cpp
+++ b/app/commsdsl2emscripten/src/EmscriptenFrame.cpp
@@ -104,6 +104,14 @@ bool EmscriptenFrame::genPrepareImpl()
     do {
         if (iFace == nullptr) {
             genGenerator().genLogger().genDebug("No valid interface for frame " + genName());
+            m_validFrame = false;
+            break;
+        }
+
+        auto* interfaceNs = EmscriptenNamespace::emscriptenCast(iFace->genParentNamespace());
+        if ((emscriptenFindInputNamespace() == nullptr) && (!interfaceNs->emscriptenHasInput())) {
+            genGenerator().genLogger().genDebug("No input messages for frame " + genName());
+            m_validFrame = false;
             break;
         }
 
diff --git a/app/commsdsl2swig/src/SwigFrame.cpp b/app/commsdsl2swig/src/SwigFrame.cpp
index 7a36d92..9102da0 100644
--- a/app/commsdsl2swig/src/SwigFrame.cpp
+++ b/app/commsdsl2swig/src/SwigFrame.cpp
@@ -101,6 +101,12 @@ bool SwigFrame::genPrepareImpl()
         m_swigLayers.push_back(const_cast<SwigLayer*>(swigLayer));
     }
 
+    if ((swigInterfaceInternal() == nullptr) || (swigInputInternal() == nullptr)) {
+        genGenerator().genLogger().genDebug("No valid interface or input messages for frame " + genName());
+        m_validFrame = false;
+        return true;
+    }
+
     m_validFrame =
         std::all_of(
             m_swigLayers.begin(), m_swigLayers.end(),
diff --git a/app/commsdsl2swig/src/SwigMessage.cpp b/app/commsdsl2swig/src/SwigMessage.cpp
index 6e80416..9c4f162 100644
--- a/app/commsdsl2swig/src/SwigMessage.cpp
+++ b/app/commsdsl2swig/src/SwigMessage.cpp
@@ -46,7 +46,7 @@ SwigMessage::~SwigMessage() = default;
 
 void SwigMessage::swigAddCodeIncludes(GenStringsList& list) const
 {
-    if (!genIsReferenced()) {
+    if ((!genIsReferenced()) || (swigGetInterfaceInternal() == nullptr)) {
         return;
     }
 
@@ -55,7 +55,7 @@ void SwigMessage::swigAddCodeIncludes(GenStringsList& list) const
 
 void SwigMessage::swigAddCode(GenStringsList& list) const
 {
-    if (!genIsReferenced()) {
+    if ((!genIsReferenced()) || (swigGetInterfaceInternal() == nullptr)) {
         return;
     }
 
@@ -131,7 +131,7 @@ void SwigMessage::swigAddCode(GenStringsList& list) const
 
 void SwigMessage::swigAddDef(GenStringsList& list) const
 {
-    if (!genIsReferenced()) {
+    if ((!genIsReferenced()) || (swigGetInterfaceInternal() == nullptr)) {
         return;
     }
 
@@ -164,6 +164,10 @@ bool SwigMessage::genPrepareImpl()
 bool SwigMessage::genWriteImpl() const
 {
     assert(genIsReferenced());
+    if (swigGetInterfaceInternal() == nullptr) {
+        return true;
+    }
+
     auto filePath = comms::genHeaderPathFor(*this, genGenerator());
     auto dirPath = util::genPathUp(filePath);
     assert(!dirPath.empty());
diff --git a/app/commsdsl2swig/src/SwigNamespace.cpp b/app/commsdsl2swig/src/SwigNamespace.cpp
index 77e26d1..ae89856 100644
--- a/app/commsdsl2swig/src/SwigNamespace.cpp
+++ b/app/commsdsl2swig/src/SwigNamespace.cpp
@@ -194,7 +194,7 @@ const SwigInputMessages* SwigNamespace::swigInputMessages() const
 
 bool SwigNamespace::swigHasInput() const
 {
-    return (genHasFramesRecursive() && genHasMessagesRecursive());
+    return (swigInterface() != nullptr) && genHasFramesRecursive() && genHasMessagesRecursive();
 }
 
 const SwigInterface* SwigNamespace::swigInterface() const
-- 
2.43.0


From c08821a63e8a7aa7b83d3f9555b16b35992010d8 Mon Sep 17 00:00:00 2001
From: v <x@y>
Date: Fri, 20 Nov 2026 02:25:19 +0000
Subject: [PATCH 058/102] fix: accept only bits of sets as the conditions
 without comparison

---
 lib/src/parse/ParseOptCondImpl.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/src/parse/ParseOptCondImpl.cpp b/lib/src/parse/ParseOptCondImpl.cpp
index 295e4c2..5ca3375 100644
--- a/lib/src/parse/ParseOptCondImpl.cpp
+++ b/lib/src/parse/ParseOptCondImpl.cpp
@@ -355,7 +355,8 @@ bool ParseOptCondExprImpl::parseVerifySiblingSingleElementCheck(const ParseOptCo
         return false;
     }
 
-    if (info.m_refType == ParseFieldImpl::FieldRefType_InnerValue) {
+    if ((info.m_refType == ParseFieldImpl::FieldRefType_InnerValue) &&
+        (info.m_field->parseKind() == ParseFieldImpl::ParseKind::Set)) {
         assert(!info.m_valueName.empty());
         return true;
     }
-- 
2.43.0


From 971afd9195a85fc9cc4becc8010f2a06e24c0174 Mon Sep 17 00:00:00 2001
From: v <x@y>
Date: Fri, 20 Nov 2026 02:29:09 +0000
Subject: [PATCH 059/102] fix: report source of copied code which cannot be
 prepared instead of crashing

---
 app/commsdsl2comms/src/CommsField.cpp     | 1 -
 app/commsdsl2comms/src/CommsInterface.cpp | 1 -
 app/commsdsl2comms/src/CommsMessage.cpp   | 1 -
 3 files changed, 3 deletions(-)

diff --git a/app/commsdsl2comms/src/CommsField.cpp b/app/commsdsl2comms/src/CommsField.cpp
index 5235e3a..b2d53c2 100644
--- a/app/commsdsl2comms/src/CommsField.cpp
+++ b/app/commsdsl2comms/src/CommsField.cpp
@@ -877,7 +877,6 @@ bool CommsField::commsCopyCodeFromInternal()
     if (origField == nullptr) {
         gen.genLogger().genError(
             "Failed to find referenced field \"" + copyFrom + "\" for copying overriding code.");
-        assert(false); // Should not happen
         return false;
     }
 
diff --git a/app/commsdsl2comms/src/CommsInterface.cpp b/app/commsdsl2comms/src/CommsInterface.cpp
index 7365a18..702af58 100644
--- a/app/commsdsl2comms/src/CommsInterface.cpp
+++ b/app/commsdsl2comms/src/CommsInterface.cpp
@@ -205,7 +205,6 @@ bool CommsInterface::commsCopyCodeFromInternal()
     if (origIface == nullptr) {
         genGenerator().genLogger().genError(
             "Failed to find referenced field \"" + copyFrom + "\" for copying overriding code.");
-        assert(false); // Should not happen
         return false;
     }
 
diff --git a/app/commsdsl2comms/src/CommsMessage.cpp b/app/commsdsl2comms/src/CommsMessage.cpp
index 6d40103..196bbf3 100644
--- a/app/commsdsl2comms/src/CommsMessage.cpp
+++ b/app/commsdsl2comms/src/CommsMessage.cpp
@@ -303,7 +303,6 @@ bool CommsMessage::commsCopyCodeFromInternal()
     if (origMsg == nullptr) {
         genGenerator().genLogger().genError(
             "Failed to find referenced field \"" + copyFrom + "\" for copying overriding code.");
-        assert(false); // Should not happen
         return false;
     }
 
-- 
2.43.0


From 616c82ae1f0f5f77e4713041b6bb6003787aa822 Mon Sep 17 00:00:00 2001
From: v <x@y>
Date: Fri, 20 Nov 2026 02:36:23 +0000
Subject: [PATCH 060/102] fix: keep the precision of the floating point values
 in the generated code

---
 app/commsdsl2comms/src/CommsFloatField.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/app/commsdsl2comms/src/CommsFloatField.cpp b/app/commsdsl2comms/src/CommsFloatField.cpp
index 1433b84..893b7b5 100644
--- a/app/commsdsl2comms/src/CommsFloatField.cpp
+++ b/app/commsdsl2comms/src/CommsFloatField.cpp
@@ -25,6 +25,9 @@
 #include <algorithm>
 #include <cassert>
 #include <cmath>
+#include <iomanip>
+#include <limits>
+#include <sstream>
 
 namespace util = commsdsl::gen::util;
 namespace comms = commsdsl::gen::comms;
@@ -96,7 +99,10 @@ std::string commsValueToString(double val, commsdsl::parse::ParseFloatField::Par
         return "std::numeric_limits<ValueType>::max()";
     }
 
-    return "static_cast<ValueType>(" + std::to_string(val) + ")";
+    // Enough digits to have the same value in the generated code
+    std::ostringstream stream;
+    stream << std::setprecision(std::numeric_limits<double>::max_digits10) << val;
+    return "static_cast<ValueType>(" + stream.str() + ")";
 }
 
 std::string commsCmpToString(double val, commsdsl::parse::ParseFloatField::ParseType type)
-- 
2.43.0


From e89398136d7040bfb78d09eda9d4b7571f050913 Mon Sep 17 00:00:00 2001
From: v <x@y>
Date: Fri, 20 Nov 2026 02:39:19 +0000
Subject: [PATCH 061/102] fix: check the version of the deprecated valid ranges
 of the int fields

---
 app/commsdsl2comms/src/CommsIntField.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/app/commsdsl2comms/src/CommsIntField.cpp b/app/commsdsl2comms/src/CommsIntField.cpp
index 7a8211b..5dbd7dc 100644
--- a/app/commsdsl2comms/src/CommsIntField.cpp
+++ b/app/commsdsl2comms/src/CommsIntField.cpp
@@ -1027,7 +1027,7 @@ void CommsIntField::commsAddValidRangesOptInternal(GenStringsList& opts) const
             continue;
         }
 
-        if (validCheckVersion && (genGenerator().genIsElementOptional(r.m_sinceVersion, r.m_deprecatedSince, false))) {
+        if (validCheckVersion && (genGenerator().genIsElementOptional(r.m_sinceVersion, r.m_deprecatedSince, true))) {
             versionStorageRequired = true;
             continue;
         }
-- 
2.43.0


From 3e3aee19ef08e0b93993260aef2f345df0c0d41c Mon Sep 17 00:00:00 2001
From: v <x@y>
Date: Fri, 20 Nov 2026 02:39:37 +0000
Subject: [PATCH 062/102] fix: leave out the valid ranges of the float fields
 which don't exist in the selected version

---
 app/commsdsl2comms/src/CommsFloatField.cpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/app/commsdsl2comms/src/CommsFloatField.cpp b/app/commsdsl2comms/src/CommsFloatField.cpp
index 893b7b5..a704e9d 100644
--- a/app/commsdsl2comms/src/CommsFloatField.cpp
+++ b/app/commsdsl2comms/src/CommsFloatField.cpp
@@ -404,7 +404,10 @@ std::string CommsFloatField::commsDefValidFuncBodyImpl() const
         conditions = commsValidNormalConditionsInternal();
     } while (false);
 
-    assert(!conditions.empty());
+    if (conditions.empty()) {
+        // none of the ranges exists
+        return strings::genEmptyString();
+    }
 
     static const std::string Templ =
         "if (Base::valid()) {\n"
@@ -727,9 +730,7 @@ void CommsFloatField::commsAddVersionOptInternal(GenStringsList& opts) const
 
 void CommsFloatField::commsAddInvalidOptInternal(GenStringsList& opts) const
 {
-    auto obj = genFloatFieldParseObj();
-
-    if (!obj.parseValidRanges().empty()) {
+    if (!commsDefValidFuncBodyImpl().empty()) {
         opts.push_back("comms::option::def::InvalidByDefault");
     }
 }
@@ -742,6 +743,10 @@ CommsFloatField::GenStringsList CommsFloatField::commsValidNormalConditionsInter
 
     auto& validRanges = obj.parseValidRanges();
     for (auto& r : validRanges) {
+        if (!genGenerator().genDoesElementExist(r.m_sinceVersion, r.m_deprecatedSince, true)) {
+            continue;
+        }
+
         if (commsIsSingleLimit(r.m_min, r.m_max)) {
             commsAddCondition(conditions, commsCmpToString(r.m_min, type));
             continue;
-- 
2.43.0


From 97066e1e1bdce5d3746e592a3bd47b9a8aa23fa3 Mon Sep 17 00:00:00 2001
From: v <x@y>
Date: Fri, 20 Nov 2026 02:42:13 +0000
Subject: [PATCH 063/102] fix: consider the referenced fields when checking the
 version dependency of the members

---
 app/commsdsl2comms/src/CommsListField.cpp     | 39 +++++++++----------
 app/commsdsl2comms/src/CommsOptionalField.cpp |  4 ++
 app/commsdsl2comms/src/CommsRefField.cpp      |  6 +++
 app/commsdsl2comms/src/CommsRefField.h        |  1 +
 4 files changed, 30 insertions(+), 20 deletions(-)

diff --git a/app/commsdsl2comms/src/CommsListField.cpp b/app/commsdsl2comms/src/CommsListField.cpp
index b3b99fc..8ec1701 100644
--- a/app/commsdsl2comms/src/CommsListField.cpp
+++ b/app/commsdsl2comms/src/CommsListField.cpp
@@ -459,27 +459,26 @@ bool CommsListField::commsIsLimitedCustomizableImpl() const
 
 bool CommsListField::commsIsVersionDependentImpl() const
 {
-    if ((m_commsMemberElementField != nullptr) && (m_commsMemberElementField->commsIsVersionDependent())) {
-        return true;
-    }
-
-    if ((m_commsMemberCountPrefixField != nullptr) && (m_commsMemberCountPrefixField->commsIsVersionDependent())) {
-        return true;
-    }
-
-    if ((m_commsMemberLengthPrefixField != nullptr) && (m_commsMemberLengthPrefixField->commsIsVersionDependent())) {
-        return true;
-    }
-
-    if ((m_commsMemberElemLengthPrefixField != nullptr) && (m_commsMemberElemLengthPrefixField->commsIsVersionDependent())) {
-        return true;
-    }
-
-    if ((m_commsMemberTermSuffixField != nullptr) && (m_commsMemberTermSuffixField->commsIsVersionDependent())) {
-        return true;
-    }
+    const CommsField* fields[] = {
+        m_commsExternalElementField,
+        m_commsMemberElementField,
+        m_commsExternalCountPrefixField,
+        m_commsMemberCountPrefixField,
+        m_commsExternalLengthPrefixField,
+        m_commsMemberLengthPrefixField,
+        m_commsExternalElemLengthPrefixField,
+        m_commsMemberElemLengthPrefixField,
+        m_commsExternalTermSuffixField,
+        m_commsMemberTermSuffixField,
+    };
 
-    return false;
+    return
+        std::any_of(
+            std::begin(fields), std::end(fields),
+            [](auto* f)
+            {
+                return (f != nullptr) && f->commsIsVersionDependent();
+            });
 }
 
 std::string CommsListField::commsMembersCustomizationOptionsBodyImpl(CommsFieldOptsFunc fieldOptsFunc) const
diff --git a/app/commsdsl2comms/src/CommsOptionalField.cpp b/app/commsdsl2comms/src/CommsOptionalField.cpp
index eaae26b..f7dcebd 100644
--- a/app/commsdsl2comms/src/CommsOptionalField.cpp
+++ b/app/commsdsl2comms/src/CommsOptionalField.cpp
@@ -477,6 +477,10 @@ std::string CommsOptionalField::commsDefBundledRefreshFuncBodyImpl(const CommsFi
 
 bool CommsOptionalField::commsIsVersionDependentImpl() const
 {
+    if (m_commsExternalField != nullptr) {
+        return m_commsExternalField->commsIsVersionDependent();
+    }
+
     return (m_commsMemberField != nullptr) && (m_commsMemberField->commsIsVersionDependent());
 }
 
diff --git a/app/commsdsl2comms/src/CommsRefField.cpp b/app/commsdsl2comms/src/CommsRefField.cpp
index e198e29..99ca375 100644
--- a/app/commsdsl2comms/src/CommsRefField.cpp
+++ b/app/commsdsl2comms/src/CommsRefField.cpp
@@ -152,6 +152,12 @@ bool CommsRefField::commsDefHasNameFuncImpl() const
     return thisDisplayName != refDisplayName;
 }
 
+bool CommsRefField::commsIsVersionDependentImpl() const
+{
+    assert(m_commsReferencedField != nullptr);
+    return m_commsReferencedField->commsIsVersionDependent();
+}
+
 std::size_t CommsRefField::commsMinLengthImpl() const
 {
     assert(m_commsReferencedField != nullptr);
diff --git a/app/commsdsl2comms/src/CommsRefField.h b/app/commsdsl2comms/src/CommsRefField.h
index 4bc54ff..43a0bad 100644
--- a/app/commsdsl2comms/src/CommsRefField.h
+++ b/app/commsdsl2comms/src/CommsRefField.h
@@ -49,6 +49,7 @@ protected:
     virtual std::string commsDefBaseClassImpl() const override;
     virtual bool commsIsLimitedCustomizableImpl() const override;
     virtual bool commsDefHasNameFuncImpl() const override;
+    virtual bool commsIsVersionDependentImpl() const override;
     virtual std::size_t commsMinLengthImpl() const override;
     virtual std::size_t commsMaxLengthImpl() const override;
     virtual std::string commsValueAccessStrImpl(const std::string& accStr, const std::string& prefix) const override;
-- 
2.43.0


From 6dd628a42633fcb5fdb40664e7bf0d1db1affba3 Mon Sep 17 00:00:00 2001
From: v <x@y>
Date: Fri, 20 Nov 2026 03:00:50 +0000
Subject: [PATCH 064/102] fix: consider all the names of a bit when checking
 whether it is reserved

---
 app/commsdsl2comms/src/CommsSetField.cpp | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/app/commsdsl2comms/src/CommsSetField.cpp b/app/commsdsl2comms/src/CommsSetField.cpp
index 2f8cf22..b55d2c5 100644
--- a/app/commsdsl2comms/src/CommsSetField.cpp
+++ b/app/commsdsl2comms/src/CommsSetField.cpp
@@ -150,11 +150,14 @@ std::string CommsSetField::commsDefValidFuncBodyImpl() const
 
     std::uintmax_t allReservedMask = 0U;
     std::uintmax_t repeatingReservedMask = 0U;
+    std::uintmax_t permanentMask = 0U;
     std::vector<unsigned> repeatingBits;
     auto& bits = obj.parseBits();
     for (auto& b : bits) {
         if ((b.second.m_sinceVersion <= obj.parseSinceVersion()) &&
             (obj.parseDeprecatedSince() <= b.second.m_deprecatedSince)) {
+            // Exists in all the versions, other names of the same bit don't restrict it
+            permanentMask |= static_cast<std::uintmax_t>(1U) << b.second.m_idx;
             continue;
         }
 
@@ -183,10 +186,11 @@ std::string CommsSetField::commsDefValidFuncBodyImpl() const
         allReservedMask |= bitMask;
     }
 
-    if (repeatingReservedMask != 0U) {
+    auto separateMask = repeatingReservedMask | permanentMask;
+    if (separateMask != 0U) {
         for (auto& b : bitsToCheck) {
-            b.second.m_reservedMask &= ~repeatingReservedMask;
-            b.second.m_reservedValue &= ~repeatingReservedMask;
+            b.second.m_reservedMask &= ~separateMask;
+            b.second.m_reservedValue &= ~separateMask;
         }
     }
 
@@ -233,6 +237,10 @@ std::string CommsSetField::commsDefValidFuncBodyImpl() const
     }
 
     for (auto idx : repeatingBits) {
+        if ((permanentMask & (static_cast<std::uintmax_t>(1U) << idx)) != 0U) {
+            continue;
+        }
+
         auto elems = obj.parseRevBits().equal_range(idx);
         assert(elems.first != elems.second);
         std::vector<std::pair<unsigned, unsigned> > versionRanges;
@@ -261,8 +269,8 @@ std::string CommsSetField::commsDefValidFuncBodyImpl() const
 
         unsigned prev = 0U;
         for (auto& r : versionRanges) {
-            auto newPrev = r.second;
-            r.second = r.first;
+            auto newPrev = std::max(prev, r.second);
+            r.second = std::max(prev, r.first);
             r.first = prev;
             prev = newPrev;
         }
-- 
2.43.0


From 48bdf330ae4b2a564f41dd576415dbb3db4c6109 Mon Sep 17 00:00:00 2001
From: v <x@y>
Date: Fri, 20 Nov 2026 03:05:10 +0000
Subject: [PATCH 065/102] fix: use the schema of the enum field to find its
 existing values

---
 app/commsdsl2comms/src/CommsEnumField.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/app/commsdsl2comms/src/CommsEnumField.cpp b/app/commsdsl2comms/src/CommsEnumField.cpp
index 0abf2b2..ff2fcad 100644
--- a/app/commsdsl2comms/src/CommsEnumField.cpp
+++ b/app/commsdsl2comms/src/CommsEnumField.cpp
@@ -1374,10 +1374,11 @@ CommsEnumField::CommsRevValues CommsEnumField::commsExistingRevValuesInternal()
 {
     auto obj = genEnumFieldParseObj();
     auto& values = obj.parseValues();
+    auto& thisSchema = genGenerator().genSchemaOf(*this);
     CommsRevValues result;
     for (auto& v : obj.parseRevValues()) {
         auto& info = values.at(v.second);
-        if (genGenerator().genDoesElementExist(info.m_sinceVersion, info.m_deprecatedSince, false)) {
+        if (thisSchema.genDoesElementExist(info.m_sinceVersion, info.m_deprecatedSince, false)) {
             result.insert(v);
         }
     }
-- 
2.43.0


From b558f44e1100e0593334e601e2af588ea6877c02 Mon Sep 17 00:00:00 2001
From: v <x@y>
Date: Fri, 20 Nov 2026 04:10:28 +0000
Subject: [PATCH 066/102] fix: define the C accessors of the interface fields
 with the declared name

---
 app/commsdsl2c/src/CInterface.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/app/commsdsl2c/src/CInterface.cpp b/app/commsdsl2c/src/CInterface.cpp
index b5562c2..d7bd501 100644
--- a/app/commsdsl2c/src/CInterface.cpp
+++ b/app/commsdsl2c/src/CInterface.cpp
@@ -472,7 +472,7 @@ std::string CInterface::cSourceCodeInternal() const
     util::GenStringsList fieldsAcc;
     for (auto* f : m_cFields) {
         static const std::string AccTempl =
-            "#^#HANDLE#$#* #^#NAME#$#_field_#^#FIELD_ACC#$#(#^#NAME#$#* msg)\n"
+            "#^#HANDLE#$#* #^#NAME#$#_transportField_#^#FIELD_ACC#$#(#^#NAME#$#* msg)\n"
             "{\n"
             "    return to#^#CONV_SUFFIX#$#(&(fromInterfaceHandle(msg)->transportField_#^#FIELD_ACC#$#()));\n"
             "}\n"
-- 
2.43.0


From a2693e56a21f52701a0d0036cdf4e825f7c92561 Mon Sep 17 00:00:00 2001
From: v <x@y>
Date: Fri, 20 Nov 2026 04:10:28 +0000
Subject: [PATCH 067/102] fix: define the C functions of optional fields with
 the declared name

---
 app/commsdsl2c/src/CField.cpp         | 4 ++--
 app/commsdsl2c/src/COptionalField.cpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/app/commsdsl2c/src/CField.cpp b/app/commsdsl2c/src/CField.cpp
index 715d308..2a4bbad 100644
--- a/app/commsdsl2c/src/CField.cpp
+++ b/app/commsdsl2c/src/CField.cpp
@@ -912,12 +912,12 @@ std::string CField::cSourceOptionalCodeInternal() const
         "    return from#^#CONV_SUFFIX#$#(field)->setMissing();\n"
         "}\n"
         "\n"
-        "bool #^#NAME#$#_isTenative(const #^#NAME#$#* field)\n"
+        "bool #^#NAME#$#_isTentative(const #^#NAME#$#* field)\n"
         "{\n"
         "    return from#^#CONV_SUFFIX#$#(field)->isTentative();\n"
         "}\n"
         "\n"
-        "void #^#NAME#$#_setTenative(#^#NAME#$#* field)\n"
+        "void #^#NAME#$#_setTentative(#^#NAME#$#* field)\n"
         "{\n"
         "    return from#^#CONV_SUFFIX#$#(field)->setTentative();\n"
         "}\n"
diff --git a/app/commsdsl2c/src/COptionalField.cpp b/app/commsdsl2c/src/COptionalField.cpp
index 9d5951f..0c853e4 100644
--- a/app/commsdsl2c/src/COptionalField.cpp
+++ b/app/commsdsl2c/src/COptionalField.cpp
@@ -159,12 +159,12 @@ std::string COptionalField::cSourceCodeImpl() const
         "    return from#^#CONV_SUFFIX#$#(field)->setMissing();\n"
         "}\n"
         "\n"
-        "bool #^#NAME#$##^#SUFFIX#$#_isTenative(const #^#NAME#$##^#SUFFIX#$#* field)\n"
+        "bool #^#NAME#$##^#SUFFIX#$#_isTentative(const #^#NAME#$##^#SUFFIX#$#* field)\n"
         "{\n"
         "    return from#^#CONV_SUFFIX#$#(field)->isTentative();\n"
         "}\n"
         "\n"
-        "void #^#NAME#$##^#SUFFIX#$#_setTenative(#^#NAME#$##^#SUFFIX#$#* field)\n"
+        "void #^#NAME#$##^#SUFFIX#$#_setTentative(#^#NAME#$##^#SUFFIX#$#* field)\n"
         "{\n"
         "    return from#^#CONV_SUFFIX#$#(field)->setTentative();\n"
         "}\n"
-- 
2.43.0


From 6a9a14ca33d1668746247849fea9beb80909a57d Mon Sep 17 00:00:00 2001
From: v <x@y>
Date: Fri, 20 Nov 2026 04:10:28 +0000
Subject: [PATCH 068/102] fix: use the declared handle in the definition of the
 C field name function

---
 app/commsdsl2c/src/CField.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/app/commsdsl2c/src/CField.cpp b/app/commsdsl2c/src/CField.cpp
index 2a4bbad..4dea3cf 100644
--- a/app/commsdsl2c/src/CField.cpp
+++ b/app/commsdsl2c/src/CField.cpp
@@ -782,7 +782,7 @@ std::string CField::cSourceCommonFuncsInternal(bool forcedOptional) const
         "    return from#^#CONV_SUFFIX#$#(field)->length();\n"
         "}\n"
         "\n"
-        "const char* #^#NAME#$##^#SUFFIX#$#_name(const #^#NAME#$##^#SUFFX#$#* field)\n"
+        "const char* #^#NAME#$##^#SUFFIX#$#_name(const #^#NAME#$##^#SUFFIX#$#* field)\n"
         "{\n"
         "    return from#^#CONV_SUFFIX#$#(field)->name();\n"
         "}\n"
-- 
2.43.0


From 5ad77471cdaf5c35e7b27a2f7839d4e1a4c1c775 Mon Sep 17 00:00:00 2001
From: v <x@y>
Date: Fri, 20 Nov 2026 04:11:06 +0000
Subject: [PATCH 069/102] fix: provide the special values of int fields in the
 emscripten bindings

---
 app/commsdsl2emscripten/src/EmscriptenIntField.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/app/commsdsl2emscripten/src/EmscriptenIntField.cpp b/app/commsdsl2emscripten/src/EmscriptenIntField.cpp
index 10daa4d..9bcacea 100644
--- a/app/commsdsl2emscripten/src/EmscriptenIntField.cpp
+++ b/app/commsdsl2emscripten/src/EmscriptenIntField.cpp
@@ -54,7 +54,7 @@ std::string EmscriptenIntField::emscriptenHeaderExtraPublicFuncsImpl() const
         "{\n"
         "    return Base::hasSpecials();\n"
         "}\n\n"
-        "#^#SCPECIALS#$#\n"
+        "#^#SPECIALS#$#\n"
         "#^#DISPLAY_DECIMALS#$#\n"
         "#^#SCALED#$#\n";
 
@@ -70,7 +70,7 @@ std::string EmscriptenIntField::emscriptenHeaderExtraPublicFuncsImpl() const
 std::string EmscriptenIntField::emscriptenSourceBindFuncsImpl() const
 {
     static const std::string Templ =
-        "#^#SCPECIALS#$#\n"
+        "#^#SPECIALS#$#\n"
         "#^#DISPLAY_DECIMALS#$#\n"
         "#^#SCALED#$#\n";
 
-- 
2.43.0


From 9072ae8b34fefff8c7838667898f93b18ea786d2 Mon Sep 17 00:00:00 2001
From: v <x@y>
Date: Fri, 20 Nov 2026 04:11:07 +0000
Subject: [PATCH 070/102] fix: provide the options of the members of the frame
 layer fields

---
 app/commsdsl2comms/src/CommsLayer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/app/commsdsl2comms/src/CommsLayer.cpp b/app/commsdsl2comms/src/CommsLayer.cpp
index 94c65d1..24725ae 100644
--- a/app/commsdsl2comms/src/CommsLayer.cpp
+++ b/app/commsdsl2comms/src/CommsLayer.cpp
@@ -442,7 +442,7 @@ std::string CommsLayer::commsCustomizationOptionsInternal(
             "///     @ref #^#SCOPE#$# layer field.\n"
             "struct #^#CLASS_NAME#$##^#SUFFIX#$##^#EXT#$#\n"
             "{\n"
-            "    #^#FIELD_OPT#$#\n"
+            "    #^#FIELD_OPTS#$#\n"
             "}; // struct #^#CLASS_NAME#$##^#SUFFIX#$#\n";
 
         util::GenReplacementMap repl = {
-- 
2.43.0


From 68f500a9aa727349ee3031f52b22fb6873d8a9a1 Mon Sep 17 00:00:00 2001
From: v <x@y>
Date: Fri, 20 Nov 2026 04:14:41 +0000
Subject: [PATCH 071/102] fix: name the C functions of special values after the
 inner field of a version dependent one

---
 app/commsdsl2c/src/CFloatField.cpp | 8 ++++++++
 app/commsdsl2c/src/CIntField.cpp   | 8 ++++++++
 2 files changed, 16 insertions(+)

diff --git a/app/commsdsl2c/src/CFloatField.cpp b/app/commsdsl2c/src/CFloatField.cpp
index b4684d5..33ced81 100644
--- a/app/commsdsl2c/src/CFloatField.cpp
+++ b/app/commsdsl2c/src/CFloatField.cpp
@@ -147,6 +147,10 @@ std::string CFloatField::cHeaderSpecialsCodeInternal() const
             {"VALUE_TYPE", strings::genValueTypeStr()},
         };
 
+        if (cIsVersionOptional()) {
+            repl["SUFFIX"] = strings::genVersionOptionalFieldSuffixStr();
+        }
+
         specialsList.push_back(util::genProcessTemplate(Templ, repl));
     }
 
@@ -190,6 +194,10 @@ std::string CFloatField::cSourceSpecialsCodeInternal() const
             {"CONV_SUFFIX", cConversionSuffix()},
         };
 
+        if (cIsVersionOptional()) {
+            repl["SUFFIX"] = strings::genVersionOptionalFieldSuffixStr();
+        }
+
         specialsList.push_back(util::genProcessTemplate(Templ, repl));
     }
 
diff --git a/app/commsdsl2c/src/CIntField.cpp b/app/commsdsl2c/src/CIntField.cpp
index 1f7efa2..99d01a2 100644
--- a/app/commsdsl2c/src/CIntField.cpp
+++ b/app/commsdsl2c/src/CIntField.cpp
@@ -163,6 +163,10 @@ std::string CIntField::cHeaderSpecialsCodeInternal() const
             {"VALUE_TYPE", strings::genValueTypeStr()},
         };
 
+        if (cIsVersionOptional()) {
+            repl["SUFFIX"] = strings::genVersionOptionalFieldSuffixStr();
+        }
+
         specialsList.push_back(util::genProcessTemplate(Templ, repl));
     }
 
@@ -206,6 +210,10 @@ std::string CIntField::cSourceSpecialsCodeInternal() const
             {"CONV_SUFFIX", cConversionSuffix()},
         };
 
+        if (cIsVersionOptional()) {
+            repl["SUFFIX"] = strings::genVersionOptionalFieldSuffixStr();
+        }
+
         specialsList.push_back(util::genProcessTemplate(Templ, repl));
     }
 
-- 
2.43.0


From d23ca0219f529f90b149aace81ae1b1da1cfb616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:57 +0000
Subject: [PATCH 072/102] fix: look for interfaces in the root namespace of the
 same schema

---
 lib/src/gen/GenNamespace.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/src/gen/GenNamespace.cpp b/lib/src/gen/GenNamespace.cpp
index 09131bd..42d32cf 100644
--- a/lib/src/gen/GenNamespace.cpp
+++ b/lib/src/gen/GenNamespace.cpp
@@ -338,7 +338,7 @@ public:
             return static_cast<const GenNamespace*>(parent)->genIsSuitableInterface(iFace);
         }
 
-        auto allNamespaces = m_generator.genGetAllNamespaces();
+        auto allNamespaces = GenGenerator::genSchemaOf(*m_holder).genGetAllNamespaces();
         auto nsIter =
             std::find_if(
                 allNamespaces.begin(), allNamespaces.end(),
@@ -525,7 +525,7 @@ private:
             return static_cast<const GenNamespace*>(parent)->genFindSuitableInterface();
         }
 
-        auto allNamespaces = m_generator.genGetAllNamespaces();
+        auto allNamespaces = GenGenerator::genSchemaOf(*m_holder).genGetAllNamespaces();
         auto iter =
             std::find_if(
                 allNamespaces.begin(), allNamespaces.end(),
-- 
2.43.0


From bd14f9ce3a0f6d7a94c0d80172464b67450c7d70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:02 +0000
Subject: [PATCH 073/102] fix: evaluate versions of swig code using the schema
 of the element

---
 app/commsdsl2swig/src/Swig.cpp | 29 +++++++++++++++++------------
 lib/src/gen/comms.cpp          |  2 +-
 2 files changed, 18 insertions(+), 13 deletions(-)

diff --git a/app/commsdsl2swig/src/Swig.cpp b/app/commsdsl2swig/src/Swig.cpp
index 7242df2..f70834a 100644
--- a/app/commsdsl2swig/src/Swig.cpp
+++ b/app/commsdsl2swig/src/Swig.cpp
@@ -116,25 +116,30 @@ std::string Swig::swigCodeBlockInternal()
 
     SwigProtocolOptions::swigAddCode(m_swigGenerator, codeElems);
 
-    for (auto& sPtr : m_swigGenerator.genSchemas()) {
-        auto* schema = SwigSchema::swigCast(sPtr.get());
+    for (auto idx = 0U; idx < m_swigGenerator.genSchemas().size(); ++idx) {
+        m_swigGenerator.genChooseCurrentSchema(idx);
+        auto* schema = SwigSchema::swigCast(m_swigGenerator.genSchemas()[idx].get());
         schema->swigAddCodeIncludes(includes);
         schema->swigAddCode(codeElems);
     }
 
-    auto allNamespaces = m_swigGenerator.genGetAllNamespacesFromAllSchemas();
-    for (auto* nsPtr : allNamespaces) {
-        auto* ns = SwigNamespace::swigCast(nsPtr);
-        auto* msgHandler = ns->swigMsgHandler();
-        if (msgHandler != nullptr) {
-            msgHandler->swigAddClassCode(codeElems);
+    for (auto idx = 0U; idx < m_swigGenerator.genSchemas().size(); ++idx) {
+        m_swigGenerator.genChooseCurrentSchema(idx);
+        for (auto* nsPtr : m_swigGenerator.genGetAllNamespaces()) {
+            auto* ns = SwigNamespace::swigCast(nsPtr);
+            auto* msgHandler = ns->swigMsgHandler();
+            if (msgHandler != nullptr) {
+                msgHandler->swigAddClassCode(codeElems);
+            }
         }
     }
 
-    auto allFrames = m_swigGenerator.genGetAllFramesFromAllSchemas();
-    for (auto* fPtr : allFrames) {
-        auto* frame = SwigFrame::swigCast(fPtr);
-        frame->swigAddCode(codeElems);
+    for (auto idx = 0U; idx < m_swigGenerator.genSchemas().size(); ++idx) {
+        m_swigGenerator.genChooseCurrentSchema(idx);
+        for (auto* fPtr : m_swigGenerator.genGetAllFrames()) {
+            auto* frame = SwigFrame::swigCast(fPtr);
+            frame->swigAddCode(codeElems);
+        }
     }
 
     static const std::string Templ =
diff --git a/lib/src/gen/comms.cpp b/lib/src/gen/comms.cpp
index f291e09..272361c 100644
--- a/lib/src/gen/comms.cpp
+++ b/lib/src/gen/comms.cpp
@@ -1031,7 +1031,7 @@ bool genIsVersionOptionalField(const GenElem& elem, const GenGenerator& generato
 
     auto& field = static_cast<const gen::GenField&>(elem);
     auto& dslObj = field.genParseObj();
-    if (!generator.genIsElementOptional(dslObj.parseSinceVersion(), dslObj.parseDeprecatedSince(), dslObj.parseIsDeprecatedRemoved())) {
+    if (!generator.genSchemaOf(elem).genIsElementOptional(dslObj.parseSinceVersion(), dslObj.parseDeprecatedSince(), dslObj.parseIsDeprecatedRemoved())) {
         return false;
     }
 
-- 
2.43.0


From cf35fcf6dd1f6522caa9424cb02a1d053bfb113d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:05 +0000
Subject: [PATCH 074/102] fix: snippets of code to inject are not copied to the
 output as extra files

---
 app/commsdsl2comms/src/CommsGenerator.cpp           | 1 +
 app/commsdsl2emscripten/src/EmscriptenGenerator.cpp | 2 ++
 app/commsdsl2latex/src/LatexGenerator.cpp           | 3 +++
 app/commsdsl2swig/src/SwigGenerator.cpp             | 2 ++
 app/commsdsl2tools_qt/src/ToolsQtGenerator.cpp      | 1 +
 5 files changed, 9 insertions(+)

diff --git a/app/commsdsl2comms/src/CommsGenerator.cpp b/app/commsdsl2comms/src/CommsGenerator.cpp
index b913926..59e8d98 100644
--- a/app/commsdsl2comms/src/CommsGenerator.cpp
+++ b/app/commsdsl2comms/src/CommsGenerator.cpp
@@ -377,6 +377,7 @@ bool CommsGenerator::commsWriteExtraFilesInternal() const
         strings::genIncFileSuffixStr(),
         strings::genAppendFileSuffixStr(),
         strings::genConstructFileSuffixStr(),
+        strings::genConstructBodyFileSuffixStr(),
     };
 
     return genCopyExtraSourceFiles(ReservedExt);
diff --git a/app/commsdsl2emscripten/src/EmscriptenGenerator.cpp b/app/commsdsl2emscripten/src/EmscriptenGenerator.cpp
index 842b157..8120f93 100644
--- a/app/commsdsl2emscripten/src/EmscriptenGenerator.cpp
+++ b/app/commsdsl2emscripten/src/EmscriptenGenerator.cpp
@@ -400,6 +400,8 @@ bool EmscriptenGenerator::emscriptenWriteExtraFilesInternal() const
         strings::genReplaceFileSuffixStr(),
         strings::genExtendFileSuffixStr(),
         strings::genPublicFileSuffixStr(),
+        strings::genProtectedFileSuffixStr(),
+        strings::genPrivateFileSuffixStr(),
         strings::genIncFileSuffixStr(),
         strings::genAppendFileSuffixStr(),
         strings::genPrependFileSuffixStr(),
diff --git a/app/commsdsl2latex/src/LatexGenerator.cpp b/app/commsdsl2latex/src/LatexGenerator.cpp
index e7ff875..dfbf9fa 100644
--- a/app/commsdsl2latex/src/LatexGenerator.cpp
+++ b/app/commsdsl2latex/src/LatexGenerator.cpp
@@ -370,7 +370,9 @@ bool LatexGenerator::latexWriteExtraFilesInternal() const
 {
     const std::vector<std::string> ReservedExt = {
         strings::genReplaceFileSuffixStr(),
+        strings::genPrependFileSuffixStr(),
         strings::genAppendFileSuffixStr(),
+        strings::genDocumentFileSuffixStr(),
         strings::genPackageFileSuffixStr(),
         strings::genPackageAppendFileSuffixStr(),
         strings::genContentFileSuffixStr(),
@@ -381,6 +383,7 @@ bool LatexGenerator::latexWriteExtraFilesInternal() const
         strings::genMacroFileSuffixStr(),
         strings::genMacroAppendFileSuffixStr(),
         strings::genPdfFileSuffixStr(),
+        strings::genPdfAppendFileSuffixStr(),
         strings::genHtmlFileSuffixStr(),
         strings::genHtmlAppendFileSuffixStr(),
         strings::genHtmlCmdAppendFileSuffixStr(),
diff --git a/app/commsdsl2swig/src/SwigGenerator.cpp b/app/commsdsl2swig/src/SwigGenerator.cpp
index 3de953f..5c93fc1 100644
--- a/app/commsdsl2swig/src/SwigGenerator.cpp
+++ b/app/commsdsl2swig/src/SwigGenerator.cpp
@@ -331,6 +331,8 @@ bool SwigGenerator::swigWriteExtraFilesInternal() const
         strings::genReplaceFileSuffixStr(),
         strings::genExtendFileSuffixStr(),
         strings::genPublicFileSuffixStr(),
+        strings::genProtectedFileSuffixStr(),
+        strings::genPrivateFileSuffixStr(),
         strings::genIncFileSuffixStr(),
         strings::genAppendFileSuffixStr(),
         strings::genPrependFileSuffixStr(),
diff --git a/app/commsdsl2tools_qt/src/ToolsQtGenerator.cpp b/app/commsdsl2tools_qt/src/ToolsQtGenerator.cpp
index 94f5e03..ebbefbf 100644
--- a/app/commsdsl2tools_qt/src/ToolsQtGenerator.cpp
+++ b/app/commsdsl2tools_qt/src/ToolsQtGenerator.cpp
@@ -456,6 +456,7 @@ bool ToolsQtGenerator::toolsWriteExtraFilesInternal() const
         strings::genPublicFileSuffixStr(),
         strings::genProtectedFileSuffixStr(),
         strings::genPrivateFileSuffixStr(),
+        strings::genReadFileSuffixStr(),
         strings::genIncFileSuffixStr(),
         strings::genAppendFileSuffixStr(),
         strings::genSourcesFileSuffixStr(),
-- 
2.43.0


From 58b1581a51a96cbd54a21eabc14d78366945169b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:58 +0000
Subject: [PATCH 075/102] fix: CMakeLists.txt.append is injected by
 commsdsl2comms

---
 app/commsdsl2comms/src/CommsCmake.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/app/commsdsl2comms/src/CommsCmake.cpp b/app/commsdsl2comms/src/CommsCmake.cpp
index 380a837..6f1f2df 100644
--- a/app/commsdsl2comms/src/CommsCmake.cpp
+++ b/app/commsdsl2comms/src/CommsCmake.cpp
@@ -131,11 +131,13 @@ bool CommsCmake::commsWriteInternal() const
         "        FILES ${CMAKE_BINARY_DIR}/${OPT_CMAKE_EXPORT_CONFIG_NAME}ConfigVersion.cmake\n"
         "        DESTINATION ${CMAKE_INSTALL_LIBDIR}/${OPT_CMAKE_EXPORT_CONFIG_NAME}/cmake/)\n"
         "endif ()\n"
+        "#^#APPEND#$#\n"
     ;
 
     util::GenReplacementMap repl = {
         {"NAME", m_generator.genProtocolSchema().genMainNamespace()},
         {"CAP_NAME", util::genStrToUpper(m_generator.genProtocolSchema().genMainNamespace())},
+        {"APPEND", m_generator.genReadScriptCodeInjectCode(strings::genCmakeListsFileStr() + strings::genAppendFileSuffixStr(), "Append here")},
     };
 
     stream << util::genProcessTemplate(Templ, repl);
-- 
2.43.0


From 8cbc720cecece424edb437fab2d63788451138ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:58 +0000
Subject: [PATCH 076/102] fix: code of an interface being reused is copied
 regardless of the order of names

---
 app/commsdsl2comms/src/CommsInterface.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/app/commsdsl2comms/src/CommsInterface.cpp b/app/commsdsl2comms/src/CommsInterface.cpp
index 702af58..29e0806 100644
--- a/app/commsdsl2comms/src/CommsInterface.cpp
+++ b/app/commsdsl2comms/src/CommsInterface.cpp
@@ -201,13 +201,18 @@ bool CommsInterface::commsCopyCodeFromInternal()
         return true;
     }
 
-    auto* origIface = genGenerator().genFindInterface(copyFrom);
+    auto* origIface = const_cast<commsdsl::gen::GenInterface*>(genGenerator().genFindInterface(copyFrom));
     if (origIface == nullptr) {
         genGenerator().genLogger().genError(
             "Failed to find referenced field \"" + copyFrom + "\" for copying overriding code.");
         return false;
     }
 
+    // The code of the other interface is available only after it is prepared
+    if (!origIface->genPrepare()) {
+        return false;
+    }
+
     auto* commsIface = dynamic_cast<const CommsInterface*>(origIface);
     assert(commsIface != nullptr);
     m_customCode = commsIface->m_customCode;
-- 
2.43.0


From 32ed991a1eb3510872d89e036315c36824b9ce1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:10 +0000
Subject: [PATCH 077/102] fix: .replace file is used for the files of global
 fields

---
 app/commsdsl2comms/src/CommsField.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/app/commsdsl2comms/src/CommsField.cpp b/app/commsdsl2comms/src/CommsField.cpp
index b2d53c2..6c6a8f2 100644
--- a/app/commsdsl2comms/src/CommsField.cpp
+++ b/app/commsdsl2comms/src/CommsField.cpp
@@ -1218,8 +1218,18 @@ bool CommsField::commsWriteDefInternal() const
         return false;
     }
 
+    bool codeReplaced = false;
+    auto inputRelPath = comms::genInputCodeRelPathFor(m_genField, generator);
+    auto replaceCode = generator.genReadCodeInjectCode(inputRelPath + strings::genReplaceFileSuffixStr(), "Replace the whole file", &codeReplaced);
+    if (codeReplaced) {
+        stream << replaceCode;
+        stream.flush();
+        return stream.good();
+    }
+
     static const std::string Templ =
         "#^#GENERATED#$#\n"
+        "#^#REPLACE#$#\n"
         "/// @file\n"
         "/// @brief Contains definition of <b>\"#^#FIELD_NAME#$#\"</b> field.\n"
         "\n"
@@ -1233,6 +1243,7 @@ bool CommsField::commsWriteDefInternal() const
 
     util::GenReplacementMap repl = {
         {"GENERATED", CommsGenerator::commsFileGeneratedComment()},
+        {"REPLACE", std::move(replaceCode)},
         {"FIELD_NAME", util::genDisplayName(m_genField.genParseObj().parseDisplayName(), m_genField.genParseObj().parseName())},
         {"INCLUDES", util::genStrListToString(includes, "\n", "\n")},
         {"EXTRA_INCLUDES", m_customCode.m_inc},
-- 
2.43.0


From bbd825fcaf68818ee0800a5718ae7f2638f279db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:12 +0000
Subject: [PATCH 078/102] fix: name of the destructor of version dependent
 variant fields

---
 app/commsdsl2comms/src/CommsField.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/app/commsdsl2comms/src/CommsField.cpp b/app/commsdsl2comms/src/CommsField.cpp
index 6c6a8f2..467862d 100644
--- a/app/commsdsl2comms/src/CommsField.cpp
+++ b/app/commsdsl2comms/src/CommsField.cpp
@@ -1570,7 +1570,7 @@ std::string CommsField::commsDefDestructCodeInternal() const
 
     static const std::string Templ =
         "/// @brief Destructor\n"
-        "~#^#CLASS_NAME#$##^#ORIG#$#()\n"
+        "~#^#CLASS_NAME#$##^#SUFFIX#$##^#ORIG#$#()\n"
         "{\n"
         "    #^#BODY#$#\n"
         "}\n";
@@ -1580,6 +1580,10 @@ std::string CommsField::commsDefDestructCodeInternal() const
         {"BODY", std::move(body)}
     };
 
+    if (commsIsVersionOptional()) {
+        repl["SUFFIX"] = strings::genVersionOptionalFieldSuffixStr();
+    }
+
     if (commsIsExtended()) {
         repl["ORIG"] = strings::genOrigSuffixStr();
     }
-- 
2.43.0


From f17d03ca977343bcc60b0ea34222b9487c58674d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:12 +0000
Subject: [PATCH 079/102] fix: keep the original construction code available to
 the injected one

---
 app/commsdsl2comms/src/CommsField.cpp   | 2 +-
 app/commsdsl2comms/src/CommsMessage.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/app/commsdsl2comms/src/CommsField.cpp b/app/commsdsl2comms/src/CommsField.cpp
index 467862d..6263e00 100644
--- a/app/commsdsl2comms/src/CommsField.cpp
+++ b/app/commsdsl2comms/src/CommsField.cpp
@@ -1548,7 +1548,7 @@ std::string CommsField::commsDefConstructPrivateCodeInternal() const
     }
 
     static const std::string Templ =
-        "construct#^#ORIG#$#()\n"
+        "void construct#^#ORIG#$#()\n"
         "{\n"
         "    #^#BODY#$#\n"
         "}\n";
diff --git a/app/commsdsl2comms/src/CommsMessage.cpp b/app/commsdsl2comms/src/CommsMessage.cpp
index 196bbf3..6a02af3 100644
--- a/app/commsdsl2comms/src/CommsMessage.cpp
+++ b/app/commsdsl2comms/src/CommsMessage.cpp
@@ -1482,7 +1482,7 @@ std::string CommsMessage::commsDefPrivateConstructInternal() const
         return strings::genEmptyString();
     }
 
-    if (m_extraCustomCode.m_hasConstruct || m_customCode.m_hasConstructBody) {
+    if ((!m_extraCustomCode.m_hasConstruct) && (!m_customCode.m_hasConstructBody)) {
         // The construct code is already in the constructor
         return strings::genEmptyString();
     }
-- 
2.43.0


From 89440cf5d7eebb0676617318e733b61c9238e4a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:54 +0000
Subject: [PATCH 080/102] fix: change only the main namespace in the copied
 extra files

---
 lib/src/gen/GenGenerator.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/lib/src/gen/GenGenerator.cpp b/lib/src/gen/GenGenerator.cpp
index 1a5160a..9a7c5b0 100644
--- a/lib/src/gen/GenGenerator.cpp
+++ b/lib/src/gen/GenGenerator.cpp
@@ -48,6 +48,7 @@
 #include <fstream>
 #include <iostream>
 #include <map>
+#include <regex>
 #include <system_error>
 
 namespace fs = std::filesystem;
@@ -1668,12 +1669,12 @@ bool GenGenerator::genCopyExtraSourceFiles(const std::vector<std::string>& reser
                 break;
             }
 
-            auto srcPrefix = (fs::path(strings::genIncludeDirStr()) / schemaNs).string();
+            auto srcPrefix = (fs::path(strings::genIncludeDirStr()) / schemaNs / "").string();
             if (!util::genStrStartsWith(relPath, srcPrefix)) {
                 break;
             }
 
-            auto dstPrefix = (fs::path(strings::genIncludeDirStr()) / protSchema.genMainNamespace()).string();
+            auto dstPrefix = (fs::path(strings::genIncludeDirStr()) / protSchema.genMainNamespace() / "").string();
             relPath = dstPrefix + std::string(relPath, srcPrefix.size());
         } while (false);
 
@@ -1704,7 +1705,7 @@ bool GenGenerator::genCopyExtraSourceFiles(const std::vector<std::string>& reser
             std::string content((std::istreambuf_iterator<char>(stream)), std::istreambuf_iterator<char>());
             stream.close();
 
-            content = util::genStrReplace(content, "namespace " + schemaNs, "namespace " + protSchema.genMainNamespace());
+            content = std::regex_replace(content, std::regex("\\bnamespace " + schemaNs + "\\b"), "namespace " + protSchema.genMainNamespace());
             std::ofstream outStream(destStr, std::ios_base::trunc);
             if (!outStream) {
                 genLogger().genError("Failed to modify " + destStr + ".");
-- 
2.43.0


From 52373c0dd6d2355704abbc2283e0920fe17b20db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:24:27 +0000
Subject: [PATCH 081/102] fix: conditions cast to the type of the interface's
 field when compared with another field

---
 app/commsdsl2comms/src/CommsOptionalField.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/app/commsdsl2comms/src/CommsOptionalField.cpp b/app/commsdsl2comms/src/CommsOptionalField.cpp
index f7dcebd..c352873 100644
--- a/app/commsdsl2comms/src/CommsOptionalField.cpp
+++ b/app/commsdsl2comms/src/CommsOptionalField.cpp
@@ -770,8 +770,7 @@ std::string CommsOptionalField::commsDslCondToStringFieldFieldCompInternal(
     auto valueStr = rightPrefix + rightField->commsValueAccessStr(rightAccStr);
     auto typeCast = leftField->commsCompValueCastType(leftAccStr);
     if (!typeCast.empty()) {
-        auto accName = comms::genAccessName(leftField->commsGenField().genParseObj().parseName());
-        valueStr = "static_cast<typename Field_" + accName + "::" + typeCast + ">(" + valueStr + ")";
+        valueStr = "static_cast<typename " + commsGetFieldTypePrefixInternal(*leftField) + leftAccName + "::" + typeCast + ">(" + valueStr + ")";
     }
 
     auto expr = leftPrefix + leftField->commsValueAccessStr(leftAccStr) + ' ' + op + ' ' + valueStr;
-- 
2.43.0


From 12573c6f273946c7bcc89a235236927e7a0435ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:24:27 +0000
Subject: [PATCH 082/102] fix: construct condition accesses the interface's
 field of its right side via Base

---
 app/commsdsl2comms/src/CommsMessage.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/app/commsdsl2comms/src/CommsMessage.cpp b/app/commsdsl2comms/src/CommsMessage.cpp
index 6a02af3..8ac0aad 100644
--- a/app/commsdsl2comms/src/CommsMessage.cpp
+++ b/app/commsdsl2comms/src/CommsMessage.cpp
@@ -157,7 +157,7 @@ void commsUpdateConstructExprInternal(
             return;
         }
 
-        valStr = rightInfo.first->commsValueAccessStr(rightInfo.second, commsInterfaceFieldAccStrInternal(*rightInfo.first));
+        valStr = "Base::" + rightInfo.first->commsValueAccessStr(rightInfo.second, commsInterfaceFieldAccStrInternal(*rightInfo.first));
     }
     else {
         valStr = leftInfo.first->commsCompPrepValueStr(leftInfo.second, right);
-- 
2.43.0


From 73421604c8af639bff09e0a4bc2d35339eb3e749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:24:27 +0000
Subject: [PATCH 083/102] fix: existence check of a field which always exists
 gives a complete condition

---
 app/commsdsl2comms/src/CommsOptionalField.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/app/commsdsl2comms/src/CommsOptionalField.cpp b/app/commsdsl2comms/src/CommsOptionalField.cpp
index c352873..bd0f1ac 100644
--- a/app/commsdsl2comms/src/CommsOptionalField.cpp
+++ b/app/commsdsl2comms/src/CommsOptionalField.cpp
@@ -850,7 +850,8 @@ std::string CommsOptionalField::commsDslCondToStringFieldExistsCompInternal(
     auto optConds = field->commsCompOptChecks(accStr, prefix);
 
     if (optConds.empty()) {
-        return strings::genEmptyString();
+        // The field always exists
+        return util::genBoolToString(op.empty());
     }
 
     auto condsStr = util::genStrListToString(optConds, " &&\n", "");
-- 
2.43.0


From 6ea2c7e679444b838869de20a7d4b85c09ba615d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:59:37 +0000
Subject: [PATCH 084/102] fix: interface fields do not refer to the protocol
 options, which are not in their scope

---
 app/commsdsl2comms/src/CommsDataField.cpp     |  2 +-
 app/commsdsl2comms/src/CommsField.cpp         | 15 +++++++++++++++
 app/commsdsl2comms/src/CommsField.h           |  1 +
 app/commsdsl2comms/src/CommsListField.cpp     | 10 +++++-----
 app/commsdsl2comms/src/CommsOptionalField.cpp |  7 +------
 app/commsdsl2comms/src/CommsStringField.cpp   |  2 +-
 6 files changed, 24 insertions(+), 13 deletions(-)

diff --git a/app/commsdsl2comms/src/CommsDataField.cpp b/app/commsdsl2comms/src/CommsDataField.cpp
index 8858d31..25fb5a3 100644
--- a/app/commsdsl2comms/src/CommsDataField.cpp
+++ b/app/commsdsl2comms/src/CommsDataField.cpp
@@ -484,7 +484,7 @@ void CommsDataField::commsAddLengthPrefixOptInternal(GenStringsList& opts) const
     else {
         assert(m_commsExternalPrefixField != nullptr);
         prefixName = comms::genScopeFor(m_commsExternalPrefixField->commsGenField(), genGenerator(), true, true);
-        prefixName += "<TOpt> ";
+        prefixName += "<" + commsProtocolOptionsParam() + "> ";
     }
 
     opts.push_back("comms::option::def::SequenceSerLengthFieldPrefix<" + prefixName + '>');
diff --git a/app/commsdsl2comms/src/CommsField.cpp b/app/commsdsl2comms/src/CommsField.cpp
index 6263e00..fb7d968 100644
--- a/app/commsdsl2comms/src/CommsField.cpp
+++ b/app/commsdsl2comms/src/CommsField.cpp
@@ -476,6 +476,11 @@ const CommsField* CommsField::commsFindSibling(const std::string& name) const
 
 bool CommsField::commsIsFieldCustomizable() const
 {
+    if (comms::genIsInterfaceDeepMemberField(m_genField)) {
+        // The protocol options are not available in the scope of the interface fields
+        return false;
+    }
+
     auto& generator = static_cast<CommsGenerator&>(m_genField.genGenerator());
     auto level = generator.commsGetCustomizationLevel();
     if (level == CommsGenerator::CommsCustomizationLevel::Full) {
@@ -776,6 +781,16 @@ std::string CommsField::commsFieldBaseParams(commsdsl::parse::ParseEndian endian
     return comms::genParseEndianToOpt(endian);
 }
 
+std::string CommsField::commsProtocolOptionsParam() const
+{
+    if (comms::genIsInterfaceDeepMemberField(m_genField)) {
+        // Rely on the default options
+        return strings::genEmptyString();
+    }
+
+    return "TOpt";
+}
+
 void CommsField::commsAddFieldDefOptions(commsdsl::gen::util::GenStringsList& opts, bool tempFieldObj) const
 {
     if (comms::genIsGlobalField(m_genField)) {
diff --git a/app/commsdsl2comms/src/CommsField.h b/app/commsdsl2comms/src/CommsField.h
index 44a87af..15bf436 100644
--- a/app/commsdsl2comms/src/CommsField.h
+++ b/app/commsdsl2comms/src/CommsField.h
@@ -152,6 +152,7 @@ protected:
 
     std::string commsCommonNameFuncCode() const;
     std::string commsFieldBaseParams(commsdsl::parse::ParseEndian endian) const;
+    std::string commsProtocolOptionsParam() const;
     void commsAddFieldDefOptions(commsdsl::gen::util::GenStringsList& opts, bool tempFieldObj = false) const;
     void commsAddFieldTypeOption(commsdsl::gen::util::GenStringsList& opts) const;
     bool commsIsExtended() const;
diff --git a/app/commsdsl2comms/src/CommsListField.cpp b/app/commsdsl2comms/src/CommsListField.cpp
index 8ec1701..b83dc32 100644
--- a/app/commsdsl2comms/src/CommsListField.cpp
+++ b/app/commsdsl2comms/src/CommsListField.cpp
@@ -580,7 +580,7 @@ std::string CommsListField::commsDefElementInternal() const
     }
 
     assert(m_commsExternalElementField != nullptr);
-    return comms::genScopeFor(m_commsExternalElementField->commsGenField(), genGenerator()) + "<TOpt>";
+    return comms::genScopeFor(m_commsExternalElementField->commsGenField(), genGenerator()) + "<" + commsProtocolOptionsParam() + ">";
 }
 
 void CommsListField::commsAddFixedLengthOptInternal(GenStringsList& opts) const
@@ -616,7 +616,7 @@ void CommsListField::commsAddCountPrefixOptInternal(GenStringsList& opts) const
     else {
         assert(m_commsExternalCountPrefixField != nullptr);
         prefixName = comms::genScopeFor(m_commsExternalCountPrefixField->commsGenField(), genGenerator(), true, true);
-        prefixName += "<TOpt> ";
+        prefixName += "<" + commsProtocolOptionsParam() + "> ";
     }
 
     opts.push_back("comms::option::def::SequenceSizeFieldPrefix<" + prefixName + '>');
@@ -640,7 +640,7 @@ void CommsListField::commsAddLengthPrefixOptInternal(GenStringsList& opts) const
     else {
         assert(m_commsExternalLengthPrefixField != nullptr);
         prefixName = comms::genScopeFor(m_commsExternalLengthPrefixField->commsGenField(), genGenerator(), true, true);
-        prefixName += "<TOpt> ";
+        prefixName += "<" + commsProtocolOptionsParam() + "> ";
     }
 
     opts.push_back("comms::option::def::SequenceSerLengthFieldPrefix<" + prefixName + '>');
@@ -664,7 +664,7 @@ void CommsListField::commsAddElemLengthPrefixOptInternal(GenStringsList& opts) c
     else {
         assert(m_commsExternalElemLengthPrefixField != nullptr);
         prefixName = comms::genScopeFor(m_commsExternalElemLengthPrefixField->commsGenField(), genGenerator(), true, true);
-        prefixName += "<TOpt> ";
+        prefixName += "<" + commsProtocolOptionsParam() + "> ";
     }
 
     std::string opt = "SequenceElemSerLengthFieldPrefix";
@@ -693,7 +693,7 @@ void CommsListField::commsAddTermSuffixOptInternal(GenStringsList& opts) const
     else {
         assert(m_commsExternalTermSuffixField != nullptr);
         suffixName = comms::genScopeFor(m_commsExternalTermSuffixField->commsGenField(), genGenerator(), true, true);
-        suffixName += "<TOpt> ";
+        suffixName += "<" + commsProtocolOptionsParam() + "> ";
     }
 
     opts.push_back("comms::option::def::SequenceTerminationFieldSuffix<" + suffixName + '>');
diff --git a/app/commsdsl2comms/src/CommsOptionalField.cpp b/app/commsdsl2comms/src/CommsOptionalField.cpp
index bd0f1ac..9f75a67 100644
--- a/app/commsdsl2comms/src/CommsOptionalField.cpp
+++ b/app/commsdsl2comms/src/CommsOptionalField.cpp
@@ -609,12 +609,7 @@ bool CommsOptionalField::commsCheckCondSupportedInternal() const
 std::string CommsOptionalField::commsDefFieldRefInternal() const
 {
     if (m_commsExternalField != nullptr) {
-            std::string templOpt;
-        if (!comms::genIsInterfaceDeepMemberField(*this)) {
-            templOpt = "TOpt";
-        }
-
-        return comms::genScopeFor(m_commsExternalField->commsGenField(), genGenerator()) + '<' + templOpt + '>';
+        return comms::genScopeFor(m_commsExternalField->commsGenField(), genGenerator()) + '<' + commsProtocolOptionsParam() + '>';
     }
 
     assert(m_commsMemberField != nullptr);
diff --git a/app/commsdsl2comms/src/CommsStringField.cpp b/app/commsdsl2comms/src/CommsStringField.cpp
index 982673f..3250176 100644
--- a/app/commsdsl2comms/src/CommsStringField.cpp
+++ b/app/commsdsl2comms/src/CommsStringField.cpp
@@ -489,7 +489,7 @@ void CommsStringField::commsAddLengthPrefixOptInternal(GenStringsList& opts) con
     else {
         assert(m_commsExternalPrefixField != nullptr);
         prefixName = comms::genScopeFor(m_commsExternalPrefixField->commsGenField(), genGenerator(), true, true);
-        prefixName += "<TOpt> ";
+        prefixName += "<" + commsProtocolOptionsParam() + "> ";
     }
 
     opts.push_back("comms::option::def::SequenceSerLengthFieldPrefix<" + prefixName + '>');
-- 
2.43.0


From f02b1e924ee4271debc28ea07f1061ceffda1c60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:59:37 +0000
Subject: [PATCH 085/102] fix: big variants which are members use their members
 without template parameters

---
 app/commsdsl2comms/src/CommsVariantField.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/app/commsdsl2comms/src/CommsVariantField.cpp b/app/commsdsl2comms/src/CommsVariantField.cpp
index 4525071..ce30cf1 100644
--- a/app/commsdsl2comms/src/CommsVariantField.cpp
+++ b/app/commsdsl2comms/src/CommsVariantField.cpp
@@ -863,7 +863,11 @@ std::string CommsVariantField::commsDefAccessCodeGeneratedInternal() const
 
     auto membersPrefix = comms::genClassName(genParseObj().parseName()) + strings::genMembersSuffixStr();
     auto docScope = membersPrefix + "::";
-    auto typeScope = "typename " + membersPrefix + "<TOpt>::";
+    auto typeScope = "typename " + membersPrefix;
+    if (comms::genIsGlobalField(*this)) {
+        typeScope += "<TOpt>";
+    }
+    typeScope += "::";
     for (auto& m : m_commsMembers) {
         auto accName = comms::genAccessName(m->commsGenField().genParseObj().parseName());
         auto className = comms::genClassName(m->commsGenField().genParseObj().parseName());
-- 
2.43.0


From 74327ba1e3e42456ff85457d360f90feba84b459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:59:37 +0000
Subject: [PATCH 086/102] fix: options of payload layer are based on the ones
 in the main namespace when these are there

---
 app/commsdsl2comms/src/CommsPayloadLayer.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/app/commsdsl2comms/src/CommsPayloadLayer.cpp b/app/commsdsl2comms/src/CommsPayloadLayer.cpp
index cd03cbc..f58ef8e 100644
--- a/app/commsdsl2comms/src/CommsPayloadLayer.cpp
+++ b/app/commsdsl2comms/src/CommsPayloadLayer.cpp
@@ -137,11 +137,12 @@ std::string CommsPayloadLayer::commsCustomFieldDataViewOptsImpl() const
         "        >;\n"
         "}; // struct #^#CLASS_NAME#$##^#SUFFIX#$#\n";
 
+    auto& commsGen = static_cast<const CommsGenerator&>(genGenerator());
     util::GenReplacementMap repl = {
         {"CLASS_NAME", comms::genClassName(genParseObj().parseName())},
         {"SUFFIX", strings::genMembersSuffixStr()},
         {"SCOPE", comms::genScopeFor(*this, genGenerator())},
-        {"OPT_SCOPE", comms::genScopeFor(*this, genGenerator(), false, true)}
+        {"OPT_SCOPE", comms::genScopeFor(*this, genGenerator(), commsGen.commsHasMainNamespaceInOptions(), true)}
     };
 
     return util::genProcessTemplate(Templ, repl);
@@ -161,11 +162,12 @@ std::string CommsPayloadLayer::commsCustomFieldBareMetalOptsImpl() const
         "        >;\n"
         "}; // struct #^#CLASS_NAME#$##^#SUFFIX#$#\n";
 
+    auto& commsGen = static_cast<const CommsGenerator&>(genGenerator());
     util::GenReplacementMap repl = {
         {"CLASS_NAME", comms::genClassName(genParseObj().parseName())},
         {"SUFFIX", strings::genMembersSuffixStr()},
         {"SCOPE", comms::genScopeFor(*this, genGenerator())},
-        {"OPT_SCOPE", comms::genScopeFor(*this, genGenerator(), false, true)}
+        {"OPT_SCOPE", comms::genScopeFor(*this, genGenerator(), commsGen.commsHasMainNamespaceInOptions(), true)}
     };
 
     return util::genProcessTemplate(Templ, repl);
-- 
2.43.0


From 1c4221d93b10700e8332e082967995764e8539fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:00:04 +0000
Subject: [PATCH 087/102] fix: options of frames do not refer to message
 factories which are not there

---
 app/commsdsl2comms/src/CommsCustomLayer.cpp |  5 +----
 app/commsdsl2comms/src/CommsIdLayer.cpp     |  5 +----
 app/commsdsl2comms/src/CommsLayer.cpp       | 13 +++++++++++++
 app/commsdsl2comms/src/CommsLayer.h         |  1 +
 app/commsdsl2comms/src/CommsNamespace.cpp   |  6 ++++++
 5 files changed, 22 insertions(+), 8 deletions(-)

diff --git a/app/commsdsl2comms/src/CommsCustomLayer.cpp b/app/commsdsl2comms/src/CommsCustomLayer.cpp
index 43fb273..3a99377 100644
--- a/app/commsdsl2comms/src/CommsCustomLayer.cpp
+++ b/app/commsdsl2comms/src/CommsCustomLayer.cpp
@@ -103,10 +103,7 @@ CommsCustomLayer::GenStringsList CommsCustomLayer::commsExtraBareMetalDefaultOpt
 CommsCustomLayer::GenStringsList CommsCustomLayer::commsExtraMsgFactoryDefaultOptionsImpl() const
 {
     if (commsDefHasInputMessagesImpl()) {
-        return
-            GenStringsList{
-                "comms::option::app::MsgFactoryTempl<" + commsMsgFactoryAliasInOptions(genGetParent()) + ">"
-            };
+        return commsMsgFactoryOptions();
     }
 
     return CommsBase::commsExtraMsgFactoryDefaultOptionsImpl();
diff --git a/app/commsdsl2comms/src/CommsIdLayer.cpp b/app/commsdsl2comms/src/CommsIdLayer.cpp
index d26eb1b..3d95a3c 100644
--- a/app/commsdsl2comms/src/CommsIdLayer.cpp
+++ b/app/commsdsl2comms/src/CommsIdLayer.cpp
@@ -100,10 +100,7 @@ CommsIdLayer::GenStringsList CommsIdLayer::commsExtraBareMetalDefaultOptionsImpl
 
 CommsIdLayer::GenStringsList CommsIdLayer::commsExtraMsgFactoryDefaultOptionsImpl() const
 {
-    return
-        GenStringsList{
-            "comms::option::app::MsgFactoryTempl<" + commsMsgFactoryAliasInOptions(genGetParent()) + ">"
-        };
+    return commsMsgFactoryOptions();
 }
 
 } // namespace commsdsl2comms
diff --git a/app/commsdsl2comms/src/CommsLayer.cpp b/app/commsdsl2comms/src/CommsLayer.cpp
index 24725ae..df51329 100644
--- a/app/commsdsl2comms/src/CommsLayer.cpp
+++ b/app/commsdsl2comms/src/CommsLayer.cpp
@@ -343,6 +343,19 @@ std::string CommsLayer::commsDefExtraOpts() const
     return util::genStrListToString(opts, ",\n", "");
 }
 
+CommsLayer::GenStringsList CommsLayer::commsMsgFactoryOptions() const
+{
+    auto alias = commsMsgFactoryAliasInOptions(m_genLayer.genGetParent());
+    if (alias.empty()) {
+        return GenStringsList();
+    }
+
+    return
+        GenStringsList{
+            "comms::option::app::MsgFactoryTempl<" + alias + ">"
+        };
+}
+
 std::string CommsLayer::commsMsgFactoryAliasInOptions(const commsdsl::gen::GenElem* parent)
 {
     do {
diff --git a/app/commsdsl2comms/src/CommsLayer.h b/app/commsdsl2comms/src/CommsLayer.h
index 2209915..46e77da 100644
--- a/app/commsdsl2comms/src/CommsLayer.h
+++ b/app/commsdsl2comms/src/CommsLayer.h
@@ -104,6 +104,7 @@ protected:
 
     std::string commsDefFieldType() const;
     std::string commsDefExtraOpts() const;
+    GenStringsList commsMsgFactoryOptions() const;
     static std::string commsMsgFactoryAliasInOptions(const commsdsl::gen::GenElem* parent);
 
 private:
diff --git a/app/commsdsl2comms/src/CommsNamespace.cpp b/app/commsdsl2comms/src/CommsNamespace.cpp
index e9f289b..5e645c3 100644
--- a/app/commsdsl2comms/src/CommsNamespace.cpp
+++ b/app/commsdsl2comms/src/CommsNamespace.cpp
@@ -368,6 +368,12 @@ const CommsField* CommsNamespace::commsFindValidInterfaceReferencedField(const s
 
 std::string CommsNamespace::commsMsgFactoryAliasType() const
 {
+    if ((!genHasFramesRecursive()) ||
+        (!genHasMessagesRecursive())) {
+        // There is no factory to refer to
+        return std::string();
+    }
+
     auto result = util::genStrReplace(comms::genScopeFor(*this, genGenerator(), false, true), "::" , "_");
     if (!genName().empty()) {
         result += "_";
-- 
2.43.0


From bb6f9aa0a4f791c1cdca47772a6ff73f7eeec2d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:00:04 +0000
Subject: [PATCH 088/102] fix: members of the escape field of sync layer can be
 customized

---
 app/commsdsl2comms/src/CommsLayer.cpp     | 26 ++++++++++++++++++++---
 app/commsdsl2comms/src/CommsLayer.h       |  1 +
 app/commsdsl2comms/src/CommsSyncLayer.cpp |  5 +++++
 app/commsdsl2comms/src/CommsSyncLayer.h   |  1 +
 4 files changed, 30 insertions(+), 3 deletions(-)

diff --git a/app/commsdsl2comms/src/CommsLayer.cpp b/app/commsdsl2comms/src/CommsLayer.cpp
index df51329..6c71a61 100644
--- a/app/commsdsl2comms/src/CommsLayer.cpp
+++ b/app/commsdsl2comms/src/CommsLayer.cpp
@@ -285,6 +285,11 @@ std::string CommsLayer::commsCustomFieldBareMetalOptsImpl() const
     return std::string();
 }
 
+const CommsField* CommsLayer::commsExtraMemberFieldImpl() const
+{
+    return nullptr;
+}
+
 std::string CommsLayer::commsExtraMemberFieldsDefsImpl() const
 {
     return std::string();
@@ -441,11 +446,26 @@ std::string CommsLayer::commsCustomizationOptionsInternal(
             break;
         }
 
-        if ((m_commsMemberField == nullptr) || (fieldOptsFunc == nullptr)) {
+        if (fieldOptsFunc == nullptr) {
             break;
         }
 
-        auto fieldOpts = (m_commsMemberField->*fieldOptsFunc)();
+        util::GenStringsList fieldOpts;
+        auto addFieldOptsFunc =
+            [fieldOptsFunc, &fieldOpts](const CommsField* field)
+            {
+                if (field == nullptr) {
+                    return;
+                }
+
+                auto str = (field->*fieldOptsFunc)();
+                if (!str.empty()) {
+                    fieldOpts.push_back(std::move(str));
+                }
+            };
+
+        addFieldOptsFunc(m_commsMemberField);
+        addFieldOptsFunc(commsExtraMemberFieldImpl());
         if (fieldOpts.empty()) {
             break;
         }
@@ -462,7 +482,7 @@ std::string CommsLayer::commsCustomizationOptionsInternal(
             {"SCOPE", comms::genScopeFor(m_genLayer, m_genLayer.genGenerator())},
             {"CLASS_NAME", comms::genClassName(m_genLayer.genParseObj().parseName())},
             {"SUFFIX", strings::genMembersSuffixStr()},
-            {"FIELD_OPTS", std::move(fieldOpts)}
+            {"FIELD_OPTS", util::genStrListToString(fieldOpts, "\n", "")}
         };
 
         if (hasBase) {
diff --git a/app/commsdsl2comms/src/CommsLayer.h b/app/commsdsl2comms/src/CommsLayer.h
index 46e77da..11104e1 100644
--- a/app/commsdsl2comms/src/CommsLayer.h
+++ b/app/commsdsl2comms/src/CommsLayer.h
@@ -99,6 +99,7 @@ protected:
     virtual std::string commsCustomFieldOptsImpl() const;
     virtual std::string commsCustomFieldDataViewOptsImpl() const;
     virtual std::string commsCustomFieldBareMetalOptsImpl() const;
+    virtual const CommsField* commsExtraMemberFieldImpl() const;
     virtual std::string commsExtraMemberFieldsDefsImpl() const;
     virtual std::string commsExtraMemberFieldsCommonCodeImpl() const;
 
diff --git a/app/commsdsl2comms/src/CommsSyncLayer.cpp b/app/commsdsl2comms/src/CommsSyncLayer.cpp
index 7c3e8ec..08ac8b5 100644
--- a/app/commsdsl2comms/src/CommsSyncLayer.cpp
+++ b/app/commsdsl2comms/src/CommsSyncLayer.cpp
@@ -151,6 +151,11 @@ std::string CommsSyncLayer::commsDefBaseTypeImpl(const std::string& prevName) co
     return util::genProcessTemplate(Templ, repl);
 }
 
+const CommsField* CommsSyncLayer::commsExtraMemberFieldImpl() const
+{
+    return dynamic_cast<const CommsField*>(genMemberEscField());
+}
+
 std::string CommsSyncLayer::commsExtraMemberFieldsDefsImpl() const
 {
     auto* memEscField = dynamic_cast<const CommsField*>(genMemberEscField());
diff --git a/app/commsdsl2comms/src/CommsSyncLayer.h b/app/commsdsl2comms/src/CommsSyncLayer.h
index abfcad2..4e591a1 100644
--- a/app/commsdsl2comms/src/CommsSyncLayer.h
+++ b/app/commsdsl2comms/src/CommsSyncLayer.h
@@ -42,6 +42,7 @@ protected:
     virtual CommsIncludesList commsCommonIncludesImpl() const override;
     virtual CommsIncludesList commsDefIncludesImpl() const override;
     virtual std::string commsDefBaseTypeImpl(const std::string& prevName) const override;
+    virtual const CommsField* commsExtraMemberFieldImpl() const override;
     virtual std::string commsExtraMemberFieldsDefsImpl() const override;
     virtual std::string commsExtraMemberFieldsCommonCodeImpl() const override;
 };
-- 
2.43.0


From 569964ba4b36757c5ad03d537bfc5271cea0effc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:03:40 +0000
Subject: [PATCH 089/102] fix: frames with payload include the definition of
 the base class of its field

---
 app/commsdsl2comms/src/CommsPayloadLayer.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/app/commsdsl2comms/src/CommsPayloadLayer.cpp b/app/commsdsl2comms/src/CommsPayloadLayer.cpp
index f58ef8e..1c656ef 100644
--- a/app/commsdsl2comms/src/CommsPayloadLayer.cpp
+++ b/app/commsdsl2comms/src/CommsPayloadLayer.cpp
@@ -45,7 +45,8 @@ bool CommsPayloadLayer::genPrepareImpl()
 CommsPayloadLayer::CommsIncludesList CommsPayloadLayer::commsDefIncludesImpl() const
 {
     CommsIncludesList result = {
-        "comms/frame/MsgDataLayer.h"
+        "comms/frame/MsgDataLayer.h",
+        comms::genRelHeaderPathForField(strings::genFieldBaseClassStr(), genGenerator())
     };
 
     return result;
-- 
2.43.0


From bb82910452047bf42a9e863dee5b48ae7cad8472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:10:37 +0000
Subject: [PATCH 090/102] fix: C input messages are generated only for
 namespaces with frames

The generated InputMessages.h uses the list of messages which
commsdsl2comms generates only for the namespaces with frames below.
---
 app/commsdsl2c/src/CNamespace.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/app/commsdsl2c/src/CNamespace.cpp b/app/commsdsl2c/src/CNamespace.cpp
index 35d2eb6..e6f9fc7 100644
--- a/app/commsdsl2c/src/CNamespace.cpp
+++ b/app/commsdsl2c/src/CNamespace.cpp
@@ -154,7 +154,7 @@ bool CNamespace::genWriteImpl() const
         return true;
     }
 
-    if (!m_input.cWrite()) {
+    if (genHasFramesRecursive() && (!m_input.cWrite())) {
         return false;
     }
 
-- 
2.43.0


From f3069d84a441ab6c851233cd4fb2d146ab27cbaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:10:37 +0000
Subject: [PATCH 091/102] fix: tools message factory is generated for every
 namespace with frames

Frames use the factory of their namespace also when there are no
messages below it.
---
 app/commsdsl2tools_qt/src/ToolsQtNamespace.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/app/commsdsl2tools_qt/src/ToolsQtNamespace.cpp b/app/commsdsl2tools_qt/src/ToolsQtNamespace.cpp
index 64e5b08..58087a6 100644
--- a/app/commsdsl2tools_qt/src/ToolsQtNamespace.cpp
+++ b/app/commsdsl2tools_qt/src/ToolsQtNamespace.cpp
@@ -61,8 +61,7 @@ ToolsQtNamespace::GenStringsList ToolsQtNamespace::toolsSourceFiles(const ToolsQ
         addToResult(toolsMessage->toolsSourceFiles(interface));
     }
 
-    if (genHasFramesRecursive() &&
-        genHasMessagesRecursive()) {
+    if (genHasFramesRecursive()) {
         addToResult(m_factory.toolsSourceFiles(interface));
     }
 
@@ -81,8 +80,7 @@ std::string ToolsQtNamespace::toolsFactoryClassScope(const commsdsl::gen::GenInt
 
 bool ToolsQtNamespace::genWriteImpl() const
 {
-    if ((!genHasFramesRecursive()) ||
-        (!genHasMessagesRecursive())) {
+    if (!genHasFramesRecursive()) {
         return true;
     }
 
-- 
2.43.0


From b8d5cef7cbc295ba61a1953ff83f1d5c9bbec8a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:10:37 +0000
Subject: [PATCH 092/102] fix: tools namespaces keep the names of schema
 namespaces

The first letter was made lower case where the namespace is opened, while
scopes refer to the name as it is.
---
 app/commsdsl2tools_qt/src/ToolsQtGenerator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/app/commsdsl2tools_qt/src/ToolsQtGenerator.cpp b/app/commsdsl2tools_qt/src/ToolsQtGenerator.cpp
index ebbefbf..03e6729 100644
--- a/app/commsdsl2tools_qt/src/ToolsQtGenerator.cpp
+++ b/app/commsdsl2tools_qt/src/ToolsQtGenerator.cpp
@@ -151,7 +151,7 @@ std::string ToolsQtGenerator::toolsNamespaceBeginForInterface(const commsdsl::ge
     std::string result = toolsNamespaceBegin();
     for (auto& e : elems) {
         if (&e != &elems.back()) {
-            result += "namespace " + comms::genAccessName(e) + "\n{\n\n";
+            result += "namespace " + e + "\n{\n\n";
             continue;
         }
 
-- 
2.43.0


From e617ee6c2521f307afe39939782b5f8b3f8b79dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:15:14 +0000
Subject: [PATCH 093/102] fix: tools options do not use message factory options
 of other schemas

The options of message factories are generated only for the protocol
schema.
---
 app/commsdsl2tools_qt/src/ToolsQtDefaultOptions.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/app/commsdsl2tools_qt/src/ToolsQtDefaultOptions.cpp b/app/commsdsl2tools_qt/src/ToolsQtDefaultOptions.cpp
index c68509b..66f0866 100644
--- a/app/commsdsl2tools_qt/src/ToolsQtDefaultOptions.cpp
+++ b/app/commsdsl2tools_qt/src/ToolsQtDefaultOptions.cpp
@@ -55,7 +55,7 @@ std::string toolsBaseCodeInternal(const ToolsQtGenerator& generator, std::size_t
         return result;
     }
 
-    if (wrapWithFactoryOpts && generator.genCurrentSchema().genHasAnyReferencedMessage()) {
+    if (wrapWithFactoryOpts && generator.genIsCurrentProtocolSchema() && generator.genCurrentSchema().genHasAnyReferencedMessage()) {
         static const std::string Templ =
             "::#^#SCOPE#$#T<\n"
             "    #^#NEXT#$#\n"
@@ -175,7 +175,7 @@ bool ToolsQtDefaultOptions::toolsWriteInternal() const
             continue;
         }
 
-        if (m_toolsGenerator.genCurrentSchema().genHasAnyReferencedMessage()) {
+        if (m_toolsGenerator.genIsCurrentProtocolSchema() && m_toolsGenerator.genCurrentSchema().genHasAnyReferencedMessage()) {
             includes.push_back(comms::genRelHeaderForOptions(strings::genAllMessagesDynMemMsgFactoryDefaultOptionsClassStr(), m_toolsGenerator));
         }
 
-- 
2.43.0


From 876bdd1b0406144ae1132e1b0793d5d6454290a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:15:14 +0000
Subject: [PATCH 094/102] fix: tools message factory and sources exclude
 messages which do not exist

The code of such messages is not generated.
---
 app/commsdsl2tools_qt/src/ToolsQtMessage.cpp    | 4 ++++
 app/commsdsl2tools_qt/src/ToolsQtMessage.h      | 5 +++++
 app/commsdsl2tools_qt/src/ToolsQtMsgFactory.cpp | 7 +++++++
 3 files changed, 16 insertions(+)

diff --git a/app/commsdsl2tools_qt/src/ToolsQtMessage.cpp b/app/commsdsl2tools_qt/src/ToolsQtMessage.cpp
index 5684eb0..eed6115 100644
--- a/app/commsdsl2tools_qt/src/ToolsQtMessage.cpp
+++ b/app/commsdsl2tools_qt/src/ToolsQtMessage.cpp
@@ -48,6 +48,10 @@ std::string ToolsQtMessage::toolsHeaderPath(const commsdsl::gen::GenInterface& i
 
 ToolsQtMessage::GenStringsList ToolsQtMessage::toolsSourceFiles(const commsdsl::gen::GenInterface& iFace) const
 {
+    if (!m_exists) {
+        return GenStringsList();
+    }
+
     return GenStringsList{toolsRelPathInternal(iFace) + strings::genCppSourceSuffixStr()};
 }
 
diff --git a/app/commsdsl2tools_qt/src/ToolsQtMessage.h b/app/commsdsl2tools_qt/src/ToolsQtMessage.h
index 76dfd6a..87c7423 100644
--- a/app/commsdsl2tools_qt/src/ToolsQtMessage.h
+++ b/app/commsdsl2tools_qt/src/ToolsQtMessage.h
@@ -41,6 +41,11 @@ public:
     GenStringsList toolsSourceFiles(const commsdsl::gen::GenInterface& iFace) const;
     std::string toolsClassScope(const commsdsl::gen::GenInterface& iFace) const;
 
+    bool toolsExists() const
+    {
+        return m_exists;
+    }
+
     static ToolsQtMessage& toolsCast(commsdsl::gen::GenMessage& msg)
     {
         return static_cast<ToolsQtMessage&>(msg);
diff --git a/app/commsdsl2tools_qt/src/ToolsQtMsgFactory.cpp b/app/commsdsl2tools_qt/src/ToolsQtMsgFactory.cpp
index 203e6c3..2e84f6c 100644
--- a/app/commsdsl2tools_qt/src/ToolsQtMsgFactory.cpp
+++ b/app/commsdsl2tools_qt/src/ToolsQtMsgFactory.cpp
@@ -243,6 +243,9 @@ std::string ToolsQtMsgFactory::toolsSourceCodeInternal(const commsdsl::gen::GenI
     auto allMessages = m_toolsGenerator.genGetAllMessagesIdSorted();
     for (auto* m : allMessages) {
         assert(m != nullptr);
+        if (!ToolsQtMessage::toolsCast(*m).toolsExists()) {
+            continue;
+        }
 
         scopes.push_back("cc_tools_qt::ToolsMessagePtr(new " + ToolsQtMessage::toolsCast(*m).toolsClassScope(iFace) + ")");
     }
@@ -262,6 +265,10 @@ std::string ToolsQtMsgFactory::toolsSourceIncludesInternal(const commsdsl::gen::
     for (auto* m : allMessages) {
         assert(m != nullptr);
         auto& castedMsg = ToolsQtMessage::toolsCast(*m);
+        if (!castedMsg.toolsExists()) {
+            continue;
+        }
+
         includes.push_back(castedMsg.toolsHeaderPath(iFace));
     }
 
-- 
2.43.0


From 57f75b625c8764727e1be960fbc3fc89334bfb7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:15:14 +0000
Subject: [PATCH 095/102] fix: all the generated tools sources are listed in
 CMakeLists.txt

The list missed the sources of nested namespaces, and used the main
namespace of the protocol schema for the sources of other ones.
---
 app/commsdsl2tools_qt/src/ToolsQtGenerator.cpp | 7 +++++--
 app/commsdsl2tools_qt/src/ToolsQtNamespace.cpp | 5 +++++
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/app/commsdsl2tools_qt/src/ToolsQtGenerator.cpp b/app/commsdsl2tools_qt/src/ToolsQtGenerator.cpp
index 03e6729..5564516 100644
--- a/app/commsdsl2tools_qt/src/ToolsQtGenerator.cpp
+++ b/app/commsdsl2tools_qt/src/ToolsQtGenerator.cpp
@@ -71,8 +71,10 @@ ToolsQtGenerator::GenStringsList ToolsQtGenerator::toolsSourceFilesForInterface(
 {
     GenStringsList result = interface.toolsSourceFiles();
 
-    for (auto& s : genSchemas()) {
-        auto& nsList = s->genNamespaces();
+    auto oldIdx = genCurrentSchemaIdx();
+    for (auto idx = 0U; idx < genSchemas().size(); ++idx) {
+        genChooseCurrentSchema(idx);
+        auto& nsList = genSchemas()[idx]->genNamespaces();
         for (auto& nsPtr : nsList) {
             assert(nsPtr);
 
@@ -81,6 +83,7 @@ ToolsQtGenerator::GenStringsList ToolsQtGenerator::toolsSourceFilesForInterface(
             std::move(nsResult.begin(), nsResult.end(), std::back_inserter(result));
         }
     }
+    genChooseCurrentSchema(oldIdx);
 
     auto frames = toolsGetSelectedFrames();
     for (auto& f : frames) {
diff --git a/app/commsdsl2tools_qt/src/ToolsQtNamespace.cpp b/app/commsdsl2tools_qt/src/ToolsQtNamespace.cpp
index 58087a6..42e81b9 100644
--- a/app/commsdsl2tools_qt/src/ToolsQtNamespace.cpp
+++ b/app/commsdsl2tools_qt/src/ToolsQtNamespace.cpp
@@ -54,6 +54,11 @@ ToolsQtNamespace::GenStringsList ToolsQtNamespace::toolsSourceFiles(const ToolsQ
             std::move(list.begin(), list.end(), std::back_inserter(result));
         };
 
+    for (auto& nsPtr : genNamespaces()) {
+        assert(nsPtr);
+        addToResult(static_cast<const ToolsQtNamespace*>(nsPtr.get())->toolsSourceFiles(interface));
+    }
+
     for (auto& mPtr : genMessages()) {
         assert(mPtr);
         auto* toolsMessage = static_cast<const ToolsQtMessage*>(mPtr.get());
-- 
2.43.0


From 590908a85a8ba62a06295781834bcdde10b6ad7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:15:14 +0000
Subject: [PATCH 096/102] fix: sources of other schemas in CMakeLists.txt of C
 and emscripten

The paths of message handlers and ids of every schema were built with the
main namespace of the protocol schema.
---
 app/commsdsl2c/src/CCmake.cpp                   | 7 +++++--
 app/commsdsl2emscripten/src/EmscriptenCmake.cpp | 7 +++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/app/commsdsl2c/src/CCmake.cpp b/app/commsdsl2c/src/CCmake.cpp
index 5875749..aa7ef64 100644
--- a/app/commsdsl2c/src/CCmake.cpp
+++ b/app/commsdsl2c/src/CCmake.cpp
@@ -212,10 +212,13 @@ bool CCmake::cWriteInternal() const
         CErrorStatus::cRelSourcePath(m_cGenerator)
     };
 
-    for (auto& sPtr : m_cGenerator.genSchemas()) {
-        auto* s = CSchema::cCast(sPtr.get());
+    auto oldIdx = m_cGenerator.genCurrentSchemaIdx();
+    for (auto idx = 0U; idx < m_cGenerator.genSchemas().size(); ++idx) {
+        m_cGenerator.genChooseCurrentSchema(idx);
+        auto* s = CSchema::cCast(m_cGenerator.genSchemas()[idx].get());
         s->cAddSourceFiles(sources);
     }
+    m_cGenerator.genChooseCurrentSchema(oldIdx);
 
     util::GenReplacementMap repl = {
         {"PROJ_NAME", m_cGenerator.genProtocolSchema().genMainNamespace()},
diff --git a/app/commsdsl2emscripten/src/EmscriptenCmake.cpp b/app/commsdsl2emscripten/src/EmscriptenCmake.cpp
index 2cdccd5..6bf1b36 100644
--- a/app/commsdsl2emscripten/src/EmscriptenCmake.cpp
+++ b/app/commsdsl2emscripten/src/EmscriptenCmake.cpp
@@ -130,10 +130,13 @@ bool EmscriptenCmake::emscriptenWriteInternal() const
     EmscriptenDataBuf::emscriptenAddSourceFiles(m_emscriptenGenerator, sources);
     EmscriptenVersion::emscriptenAddSourceFiles(m_emscriptenGenerator, sources);
 
-    for (auto& sPtr : m_emscriptenGenerator.genSchemas()) {
-        auto* s = EmscriptenSchema::emscriptenCast(sPtr.get());
+    auto oldIdx = m_emscriptenGenerator.genCurrentSchemaIdx();
+    for (auto idx = 0U; idx < m_emscriptenGenerator.genSchemas().size(); ++idx) {
+        m_emscriptenGenerator.genChooseCurrentSchema(idx);
+        auto* s = EmscriptenSchema::emscriptenCast(m_emscriptenGenerator.genSchemas()[idx].get());
         s->emscriptenAddSourceFiles(sources);
     }
+    m_emscriptenGenerator.genChooseCurrentSchema(oldIdx);
 
     util::GenReplacementMap repl = {
         {"PROJ_NAME", m_emscriptenGenerator.genProtocolSchema().genMainNamespace()},
-- 
2.43.0


From 957f13df6cb1bf7dc3a2bcb9e01b572d66261f8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:15:14 +0000
Subject: [PATCH 097/102] fix: C sources below namespaces without suitable
 interface are built

Fields of such namespaces, and everything in the nested ones which do have
an interface, were missing in CMakeLists.txt.
---
 app/commsdsl2c/src/CNamespace.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/app/commsdsl2c/src/CNamespace.cpp b/app/commsdsl2c/src/CNamespace.cpp
index e6f9fc7..40bc300 100644
--- a/app/commsdsl2c/src/CNamespace.cpp
+++ b/app/commsdsl2c/src/CNamespace.cpp
@@ -72,13 +72,14 @@ const CInterface* CNamespace::cInterface() const
 
 void CNamespace::cAddSourceFiles(GenStringsList& sources) const
 {
+    cAddSourceFilesInternal<CNamespace>(genNamespaces(), sources);
+    cAddSourceFilesInternal<CField>(genFields(), sources);
+
     if (!cCodeGenerationAllowed()) {
-        genGenerator().genLogger().genDebug("No suitable interface for namespace, i.e. no includes " + genName());
+        genGenerator().genLogger().genDebug("No suitable interface for namespace, i.e. no messages and frames " + genName());
         return;
     }
 
-    cAddSourceFilesInternal<CNamespace>(genNamespaces(), sources);
-    cAddSourceFilesInternal<CField>(genFields(), sources);
     cAddSourceFilesInternal<CMessage>(genMessages(), sources);
     cAddSourceFilesInternal<CFrame>(genFrames(), sources);
 
-- 
2.43.0


From 12ff39012858933e90d1d3987b87cd6d62b9b2c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:15:14 +0000
Subject: [PATCH 098/102] fix: default input messages of the test are the ones
 which are generated

The list of all messages is generated only for the namespaces with frames
below, which may not be the case for the namespace of the interface.
---
 app/commsdsl2test/src/TestCmake.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/app/commsdsl2test/src/TestCmake.cpp b/app/commsdsl2test/src/TestCmake.cpp
index aad8b21..f68d914 100644
--- a/app/commsdsl2test/src/TestCmake.cpp
+++ b/app/commsdsl2test/src/TestCmake.cpp
@@ -60,8 +60,6 @@ bool TestCmake::testWriteInternal() const
     auto* firstFrame = allFrames.front();
     assert(!firstFrame->genName().empty());
 
-    auto* interfaceNs = firstInterface->genParentNamespace();
-
     auto* inputNs = firstFrame->genParentNamespace();
     while (inputNs != nullptr) {
         if (inputNs->genHasMessagesRecursive()) {
@@ -78,7 +76,8 @@ bool TestCmake::testWriteInternal() const
     }
 
     if (inputNs == nullptr) {
-        inputNs = interfaceNs;
+        // The list of all messages is generated only for namespaces with frames
+        inputNs = firstFrame->genParentNamespace();
     }
 
     util::GenReplacementMap repl = {
-- 
2.43.0


From 2a8efdf7de8f21f0007f941a5ea2f20eebd7345f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:15:36 +0000
Subject: [PATCH 099/102] fix: emscripten message handler includes the messages
 it handles

The lists of input messages it used are generated only for namespaces with
frames, and may not have all the messages of the namespace.
---
 .../src/EmscriptenMsgHandler.cpp              | 26 +++++++++++++++++++
 .../src/EmscriptenMsgHandler.h                |  1 +
 2 files changed, 27 insertions(+)

diff --git a/app/commsdsl2emscripten/src/EmscriptenMsgHandler.cpp b/app/commsdsl2emscripten/src/EmscriptenMsgHandler.cpp
index 32105a6..7a526eb 100644
--- a/app/commsdsl2emscripten/src/EmscriptenMsgHandler.cpp
+++ b/app/commsdsl2emscripten/src/EmscriptenMsgHandler.cpp
@@ -92,6 +92,7 @@ bool EmscriptenMsgHandler::emscriptenWriteHeaderInternal() const
         "#^#GENERATED#$#\n\n"
         "#pragma once\n\n"
         "#^#INCLUDES#$#\n"
+        "#^#FWD#$#\n"
         "class #^#CLASS_NAME#$#\n"
         "{\n"
         "public:\n"
@@ -112,6 +113,7 @@ bool EmscriptenMsgHandler::emscriptenWriteHeaderInternal() const
         {"INCLUDES", emscriptenHeaderIncludesInternal()},
         {"COMMS_INTERFACE", comms::genScopeFor(*iFace, m_emscriptenGenerator)},
         {"INTERFACE", m_emscriptenGenerator.emscriptenClassName(*iFace)},
+        {"FWD", emscriptenHeaderFwdInternal()},
         {"FUNCS", emscriptenHeaderHandleFuncsInternal()},
     };
 
@@ -162,6 +164,12 @@ bool EmscriptenMsgHandler::emscriptenWriteSrcInternal() const
         }
     }
 
+    for (auto* m : emscriptenMessagesListInternal()) {
+        if (m->genIsReferenced()) {
+            includes.push_back(EmscriptenMessage::emscriptenCast(m)->emscriptenRelHeader());
+        }
+    }
+
     comms::genPrepareIncludeStatement(includes);
 
     util::GenReplacementMap repl = {
@@ -207,12 +215,30 @@ std::string EmscriptenMsgHandler::emscriptenHeaderIncludesInternal() const
         }
     }
 
+    for (auto* m : emscriptenMessagesListInternal()) {
+        if (m->genIsReferenced()) {
+            includes.push_back(comms::genRelHeaderPathFor(*m, m_emscriptenGenerator));
+        }
+    }
+
     EmscriptenProtocolOptions::emscriptenAddInclude(m_emscriptenGenerator, includes);
 
     comms::genPrepareIncludeStatement(includes);
     return util::genStrListToString(includes, "\n", "\n");
 }
 
+std::string EmscriptenMsgHandler::emscriptenHeaderFwdInternal() const
+{
+    util::GenStringsList classes;
+    for (auto* m : emscriptenMessagesListInternal()) {
+        if (m->genIsReferenced()) {
+            classes.push_back("class " + m_emscriptenGenerator.emscriptenClassName(*m) + ";");
+        }
+    }
+
+    return util::genStrListToString(classes, "\n", "\n");
+}
+
 std::string EmscriptenMsgHandler::emscriptenHeaderHandleFuncsInternal() const
 {
     auto* iFace = m_parent.emscriptenInterface();
diff --git a/app/commsdsl2emscripten/src/EmscriptenMsgHandler.h b/app/commsdsl2emscripten/src/EmscriptenMsgHandler.h
index 0b06591..c80a0a9 100644
--- a/app/commsdsl2emscripten/src/EmscriptenMsgHandler.h
+++ b/app/commsdsl2emscripten/src/EmscriptenMsgHandler.h
@@ -44,6 +44,7 @@ private:
     bool emscriptenWriteSrcInternal() const;
 
     std::string emscriptenHeaderIncludesInternal() const;
+    std::string emscriptenHeaderFwdInternal() const;
     std::string emscriptenHeaderHandleFuncsInternal() const;
     std::string emscriptenSourceHandleFuncsInternal() const;
     std::string emscriptenSourceWrapperClassInternal() const;
-- 
2.43.0


From c02eef2629633e604d889bd536cc8248678065f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:16:56 +0000
Subject: [PATCH 100/102] fix: C input messages of other schemas are a header

The definition was generated with the name of a source file.
---
 app/commsdsl2c/src/CGenerator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/app/commsdsl2c/src/CGenerator.cpp b/app/commsdsl2c/src/CGenerator.cpp
index f1c1563..3f0c2de 100644
--- a/app/commsdsl2c/src/CGenerator.cpp
+++ b/app/commsdsl2c/src/CGenerator.cpp
@@ -172,7 +172,7 @@ std::string CGenerator::cRelHeaderForInput(const std::string& name, const CNames
 {
     auto& schema = genSchemaOf(parent);
     if (&schema != &genProtocolSchema()) {
-        return genGetTopNamespace() + '/' + comms::genRelSourceForNamespaceMember(name, *this, parent);
+        return genGetTopNamespace() + '/' + comms::genRelHeaderForInput(name, *this, parent);
     }
 
     return genGetTopNamespace() + '/' + m_namesPrefix + '/' + comms::genRelHeaderForInput(name, *this, parent, false);
-- 
2.43.0


From a74cd6effb25bbf00e1e161d20fa15764de2d9a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:16:56 +0000
Subject: [PATCH 101/102] fix: emscripten message ids which are not generated
 are not listed

Message ids of other schemas without messages are not generated.
---
 app/commsdsl2emscripten/src/EmscriptenMsgId.cpp | 16 ++++++++++++++--
 app/commsdsl2emscripten/src/EmscriptenMsgId.h   |  1 +
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/app/commsdsl2emscripten/src/EmscriptenMsgId.cpp b/app/commsdsl2emscripten/src/EmscriptenMsgId.cpp
index 17fd9f4..adf3b5b 100644
--- a/app/commsdsl2emscripten/src/EmscriptenMsgId.cpp
+++ b/app/commsdsl2emscripten/src/EmscriptenMsgId.cpp
@@ -44,8 +44,7 @@ EmscriptenMsgId::EmscriptenMsgId(EmscriptenGenerator& generator, const Emscripte
 
 bool EmscriptenMsgId::emscriptenWrite() const
 {
-    auto& thisSchema = m_emscriptenGenerator.genCurrentSchema();
-    if ((!m_emscriptenGenerator.genIsCurrentProtocolSchema()) && (!thisSchema.genHasReferencedMessageIdField()) && (!thisSchema.genHasAnyReferencedMessage())) {
+    if (!emscriptenIsWrittenInternal()) {
         return true;
     }
 
@@ -96,10 +95,23 @@ bool EmscriptenMsgId::emscriptenWrite() const
 
 void EmscriptenMsgId::emscriptenAddSourceFiles(GenStringsList& sources) const
 {
+    if (!emscriptenIsWrittenInternal()) {
+        return;
+    }
+
     auto name = m_emscriptenGenerator.emscriptenScopeNameForNamespaceMember(strings::genMsgIdEnumNameStr(), m_parent);
     sources.push_back(m_emscriptenGenerator.emscriptenRelSourceForNamespaceMember(name, m_parent));
 }
 
+bool EmscriptenMsgId::emscriptenIsWrittenInternal() const
+{
+    auto& thisSchema = m_emscriptenGenerator.genCurrentSchema();
+    return
+        m_emscriptenGenerator.genIsCurrentProtocolSchema() ||
+        thisSchema.genHasReferencedMessageIdField() ||
+        thisSchema.genHasAnyReferencedMessage();
+}
+
 std::string EmscriptenMsgId::emscriptenIdsInternal() const
 {
     auto allMsgIdFields = m_parent.genFindMessageIdFields();
diff --git a/app/commsdsl2emscripten/src/EmscriptenMsgId.h b/app/commsdsl2emscripten/src/EmscriptenMsgId.h
index 635c6b4..f52eff3 100644
--- a/app/commsdsl2emscripten/src/EmscriptenMsgId.h
+++ b/app/commsdsl2emscripten/src/EmscriptenMsgId.h
@@ -37,6 +37,7 @@ public:
     void emscriptenAddSourceFiles(GenStringsList& sources) const;
 
 private:
+    bool emscriptenIsWrittenInternal() const;
     std::string emscriptenIdsInternal() const;
 
     EmscriptenGenerator& m_emscriptenGenerator;
-- 
2.43.0


From 9f3a1f02633e423e70482a7831d57fa25fb90e68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:49:08 +0000
Subject: [PATCH 102/102] fix: compared values given by names of other fields
 were not resolved

---
 app/commsdsl2comms/src/CommsEnumField.cpp  | 23 ++--------
 app/commsdsl2comms/src/CommsField.cpp      | 31 +++++++++++++
 app/commsdsl2comms/src/CommsField.h        |  3 ++
 app/commsdsl2comms/src/CommsFloatField.cpp | 52 ++++++++++++++++++++++
 app/commsdsl2comms/src/CommsFloatField.h   |  1 +
 app/commsdsl2comms/src/CommsIntField.cpp   | 18 +-------
 app/commsdsl2comms/src/CommsSetField.cpp   | 24 ++++++++++
 app/commsdsl2comms/src/CommsSetField.h     |  1 +
 8 files changed, 118 insertions(+), 35 deletions(-)

diff --git a/app/commsdsl2comms/src/CommsEnumField.cpp b/app/commsdsl2comms/src/CommsEnumField.cpp
index ff2fcad..078dee0 100644
--- a/app/commsdsl2comms/src/CommsEnumField.cpp
+++ b/app/commsdsl2comms/src/CommsEnumField.cpp
@@ -507,30 +507,15 @@ std::string CommsEnumField::commsCompPrepValueStrImpl([[maybe_unused]] const std
         return util::genNumToString(iter->second.m_value);
     }
 
-    auto lastDot = value.find_last_of(".");
-    if (lastDot == std::string::npos) {
+    std::string valueSubstr;
+    auto* otherField = commsFindCompValueField(value, valueSubstr);
+    if (otherField == nullptr) {
         [[maybe_unused]] static constexpr bool Should_not_happen = false;
         assert(Should_not_happen);
         return CommsBase::commsCompPrepValueStrImpl(accStr, value);
     }
 
-    auto* otherEnum = genGenerator().genFindField(std::string(value, 0, lastDot));
-    if ((otherEnum == nullptr) || (otherEnum->genParseObj().parseKind() != commsdsl::parse::ParseField::ParseKind::Enum)) {
-        [[maybe_unused]] static constexpr bool Should_not_happen = false;
-        assert(Should_not_happen);
-        return CommsBase::commsCompPrepValueStrImpl(accStr, value);
-    }
-
-    auto& castedOtherEnum = static_cast<const CommsEnumField&>(*otherEnum);
-    auto& otherValues = castedOtherEnum.genEnumFieldParseObj().parseValues();
-    auto otherIter = otherValues.find(std::string(value, lastDot + 1));
-    if (otherIter == otherValues.end()) {
-        [[maybe_unused]] static constexpr bool Should_not_happen = false;
-        assert(Should_not_happen);
-        return CommsBase::commsCompPrepValueStrImpl(accStr, value);
-    }
-
-    return util::genNumToString(otherIter->second.m_value);
+    return otherField->commsCompPrepValueStr(std::string(), valueSubstr);
 }
 
 bool CommsEnumField::commsVerifyInnerRefImpl(const std::string& refStr) const
diff --git a/app/commsdsl2comms/src/CommsField.cpp b/app/commsdsl2comms/src/CommsField.cpp
index fb7d968..a7374dc 100644
--- a/app/commsdsl2comms/src/CommsField.cpp
+++ b/app/commsdsl2comms/src/CommsField.cpp
@@ -725,6 +725,37 @@ std::string CommsField::commsCompPrepValueStrImpl([[maybe_unused]] const std::st
     return value;
 }
 
+const CommsField* CommsField::commsFindCompValueField(const std::string& value, std::string& valueSubstr) const
+{
+    auto& generator = m_genField.genGenerator();
+    bool schemaRef = (!value.empty()) && (value[0] == strings::genSchemaRefPrefix());
+    auto namespaces = schemaRef ? generator.genGetAllNamespacesFromAllSchemas() : generator.genCurrentSchema().genGetAllNamespaces();
+
+    // The field can reside in (nested) namespace, and be followed by the name of its value
+    for (auto pos = value.size(); (0U < pos) && (pos != std::string::npos); pos = value.rfind('.', pos - 1U)) {
+        auto fieldRef = value.substr(0, pos);
+        for (auto* ns : namespaces) {
+            auto& fields = ns->genFields();
+            auto iter =
+                std::find_if(
+                    fields.begin(), fields.end(),
+                    [schemaRef, &fieldRef](auto& f)
+                    {
+                        return f->genParseObj().parseExternalRef(schemaRef) == fieldRef;
+                    });
+
+            if (iter == fields.end()) {
+                continue;
+            }
+
+            valueSubstr = (pos < value.size()) ? value.substr(pos + 1U) : std::string();
+            return dynamic_cast<const CommsField*>(iter->get());
+        }
+    }
+
+    return nullptr;
+}
+
 bool CommsField::commsHasCustomLengthDeepImpl() const
 {
     return false;
diff --git a/app/commsdsl2comms/src/CommsField.h b/app/commsdsl2comms/src/CommsField.h
index 15bf436..28572eb 100644
--- a/app/commsdsl2comms/src/CommsField.h
+++ b/app/commsdsl2comms/src/CommsField.h
@@ -150,6 +150,9 @@ protected:
     virtual bool commsVerifyInnerRefImpl(const std::string& refStr) const;
     virtual bool commsMustDefineDefaultConstructorImpl() const;
 
+    // Find global field referenced in the compared value, the rest of the value is returned in the valueSubstr
+    const CommsField* commsFindCompValueField(const std::string& value, std::string& valueSubstr) const;
+
     std::string commsCommonNameFuncCode() const;
     std::string commsFieldBaseParams(commsdsl::parse::ParseEndian endian) const;
     std::string commsProtocolOptionsParam() const;
diff --git a/app/commsdsl2comms/src/CommsFloatField.cpp b/app/commsdsl2comms/src/CommsFloatField.cpp
index a704e9d..f4a33e7 100644
--- a/app/commsdsl2comms/src/CommsFloatField.cpp
+++ b/app/commsdsl2comms/src/CommsFloatField.cpp
@@ -27,6 +27,7 @@
 #include <cmath>
 #include <iomanip>
 #include <limits>
+#include <map>
 #include <sstream>
 
 namespace util = commsdsl::gen::util;
@@ -450,6 +451,57 @@ bool CommsFloatField::commsIsVersionDependentImpl() const
     return (iter != validRanges.end());
 }
 
+std::string CommsFloatField::commsCompPrepValueStrImpl(const std::string& accStr, const std::string& value) const
+{
+    assert(accStr.empty());
+
+    auto valToString =
+        [](double val) -> std::string
+        {
+            if (std::isnan(val)) {
+                return "std::numeric_limits<double>::quiet_NaN()";
+            }
+
+            if (std::isinf(val)) {
+                return std::string((val < 0) ? "-" : "") + "std::numeric_limits<double>::infinity()";
+            }
+
+            std::ostringstream stream;
+            stream << std::setprecision(std::numeric_limits<double>::max_digits10) << val;
+            return stream.str();
+        };
+
+    auto obj = genFloatFieldParseObj();
+    if (value.empty()) {
+        return valToString(obj.parseDefaultValue());
+    }
+
+    static const std::map<std::string, double> LimitsMap = {
+        {"nan", std::numeric_limits<double>::quiet_NaN()},
+        {"inf", std::numeric_limits<double>::infinity()},
+        {"-inf", -std::numeric_limits<double>::infinity()},
+    };
+
+    auto limitIter = LimitsMap.find(value);
+    if (limitIter != LimitsMap.end()) {
+        return valToString(limitIter->second);
+    }
+
+    auto& specials = obj.parseSpecialValues();
+    auto iter = specials.find(value);
+    if (iter != specials.end()) {
+        return valToString(iter->second.m_value);
+    }
+
+    std::string valueSubstr;
+    auto* otherField = commsFindCompValueField(value, valueSubstr);
+    if (otherField != nullptr) {
+        return otherField->commsCompPrepValueStr(std::string(), valueSubstr);
+    }
+
+    return CommsBase::commsCompPrepValueStrImpl(accStr, value);
+}
+
 bool CommsFloatField::commsVerifyInnerRefImpl(const std::string& refStr) const
 {
     auto obj = genFloatFieldParseObj();
diff --git a/app/commsdsl2comms/src/CommsFloatField.h b/app/commsdsl2comms/src/CommsFloatField.h
index 43faf7a..05cb0cf 100644
--- a/app/commsdsl2comms/src/CommsFloatField.h
+++ b/app/commsdsl2comms/src/CommsFloatField.h
@@ -49,6 +49,7 @@ protected:
     virtual std::string commsDefPublicCodeImpl() const override;
     virtual std::string commsDefValidFuncBodyImpl() const override;
     virtual bool commsIsVersionDependentImpl() const override;
+    virtual std::string commsCompPrepValueStrImpl(const std::string& accStr, const std::string& value) const override;
     virtual bool commsVerifyInnerRefImpl(const std::string& refStr) const override;
 
 private:
diff --git a/app/commsdsl2comms/src/CommsIntField.cpp b/app/commsdsl2comms/src/CommsIntField.cpp
index 5dbd7dc..4b091e5 100644
--- a/app/commsdsl2comms/src/CommsIntField.cpp
+++ b/app/commsdsl2comms/src/CommsIntField.cpp
@@ -439,27 +439,13 @@ std::string CommsIntField::commsCompPrepValueStrImpl([[maybe_unused]] const std:
 
     auto& gen = genGenerator();
     do {
-        auto pos = value.find_first_of(".");
-        auto fieldRef = value; // copy
         std::string valueSubstr;
-
-        if (pos < value.size() && (value[0] == strings::genSchemaRefPrefix())) {
-            pos = value.find_first_of(".", pos + 1); // find second
-        }
-
-        if (pos < value.size()) {
-            fieldRef = value.substr(0, pos);
-            valueSubstr = value.substr(pos + 1);
-        }
-
-        auto field = gen.genFindField(fieldRef);
+        auto* field = commsFindCompValueField(value, valueSubstr);
         if (field == nullptr) {
             break;
         }
 
-        auto* commsField = dynamic_cast<const CommsField*>(field);
-        assert(commsField != nullptr);
-        auto newValue = commsField->commsCompPrepValueStr(std::string(), valueSubstr);
+        auto newValue = field->commsCompPrepValueStr(std::string(), valueSubstr);
         if (newValue.empty() || (newValue == strings::genUnexpectedValueStr())) {
             break;
         }
diff --git a/app/commsdsl2comms/src/CommsSetField.cpp b/app/commsdsl2comms/src/CommsSetField.cpp
index b55d2c5..07ecc34 100644
--- a/app/commsdsl2comms/src/CommsSetField.cpp
+++ b/app/commsdsl2comms/src/CommsSetField.cpp
@@ -418,6 +418,30 @@ std::string CommsSetField::commsValueAccessStrImpl(const std::string& accStr, co
     return prefix + ".getBitValue_" + accStr + "()";
 }
 
+std::string CommsSetField::commsCompPrepValueStrImpl(const std::string& accStr, const std::string& value) const
+{
+    assert(accStr.empty());
+
+    auto obj = genSetFieldParseObj();
+    if (value.empty()) {
+        return util::genNumToString(static_cast<unsigned>(obj.parseDefaultBitValue()));
+    }
+
+    auto& bits = obj.parseBits();
+    auto iter = bits.find(value);
+    if (iter != bits.end()) {
+        return util::genNumToString(static_cast<unsigned>(iter->second.m_defaultValue));
+    }
+
+    std::string valueSubstr;
+    auto* otherField = commsFindCompValueField(value, valueSubstr);
+    if (otherField != nullptr) {
+        return otherField->commsCompPrepValueStr(std::string(), valueSubstr);
+    }
+
+    return CommsBase::commsCompPrepValueStrImpl(accStr, value);
+}
+
 bool CommsSetField::commsVerifyInnerRefImpl(const std::string& refStr) const
 {
     auto& bits = genSetFieldParseObj().parseBits();
diff --git a/app/commsdsl2comms/src/CommsSetField.h b/app/commsdsl2comms/src/CommsSetField.h
index 58ae41e..dc5d06b 100644
--- a/app/commsdsl2comms/src/CommsSetField.h
+++ b/app/commsdsl2comms/src/CommsSetField.h
@@ -51,6 +51,7 @@ protected:
     virtual bool commsIsVersionDependentImpl() const override;
     virtual std::size_t commsMinLengthImpl() const override;
     virtual std::string commsValueAccessStrImpl(const std::string& accStr, const std::string& prefix) const override;
+    virtual std::string commsCompPrepValueStrImpl(const std::string& accStr, const std::string& value) const override;
     virtual bool commsVerifyInnerRefImpl(const std::string& refStr) const override;
 
 private:
-- 
2.43.0

