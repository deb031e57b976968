From 9f73c14824be9205e48c9f1610b43466e42d2041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:33 +0000
Subject: [PATCH 001/118] fix: String.hashCode returned the hash of an earlier
 value after =, += or []

---
 library/Java/Lang/String/String.cpp | 9 +++------
 library/Java/Lang/String/String.hpp | 1 -
 2 files changed, 3 insertions(+), 7 deletions(-)

diff --git a/library/Java/Lang/String/String.cpp b/library/Java/Lang/String/String.cpp
index b6379f4..c6ba7a9 100644
--- a/library/Java/Lang/String/String.cpp
+++ b/library/Java/Lang/String/String.cpp
@@ -585,12 +585,9 @@ boolean String::equalsIgnoreCase(const String &anotherString) const {
 }
 
 long String::hashCode() const {
-	int hashCode = this->hash;
-	if (hashCode == 0 && this->original.size() > 0) {
-		for (int i = 0; i < this->original.size(); i++) {
-			hashCode = 31 * hashCode + this->original[i];
-		}
-		this->hash = hashCode;
+	int hashCode = 0;
+	for (int i = 0; i < this->original.size(); i++) {
+		hashCode = 31 * hashCode + this->original[i];
 	}
 	return hashCode;
 }
diff --git a/library/Java/Lang/String/String.hpp b/library/Java/Lang/String/String.hpp
index 2cae6e0..91da0b6 100644
--- a/library/Java/Lang/String/String.hpp
+++ b/library/Java/Lang/String/String.hpp
@@ -96,7 +96,6 @@ namespace Java {
 
         private:
             std::string original;
-            mutable int hash = 0;
 
         public:
             /**
-- 
2.43.0


From 2c1e4ae6d0157cb60de1039e3b84505d0babfed1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:33 +0000
Subject: [PATCH 002/118] fix: String.charAt and getStringFromIndex accepted
 every index on the empty string

---
 library/Java/Lang/String/String.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/library/Java/Lang/String/String.cpp b/library/Java/Lang/String/String.cpp
index c6ba7a9..0cb2c1f 100644
--- a/library/Java/Lang/String/String.cpp
+++ b/library/Java/Lang/String/String.cpp
@@ -155,7 +155,7 @@ String String::clone() {
 }
 
 char String::charAt(int index) const {
-	if (index < 0 || index > this->original.size() - 1) {
+	if (index < 0 || index >= (int) this->original.size()) {
 		throw StringIndexOutOfBoundsException("String index out of range");
 	}
 	return (this->original[index]);
@@ -201,7 +201,7 @@ Array<byte> String::getBytes() const {
 }
 
 String String::getStringFromIndex(int index) const {
-	if (index < 0 || index > this->original.size() - 1) {
+	if (index < 0 || index >= (int) this->original.size()) {
 		throw StringIndexOutOfBoundsException(index);
 	}
 	return this->original.substr(index);
-- 
2.43.0


From a57dc5dd305970f9aaecd034b14e77d3d576ad9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:33 +0000
Subject: [PATCH 003/118] fix: String.indexOf of the NUL character answered 0
 for every string

---
 library/Java/Lang/String/String.cpp | 13 +------------
 1 file changed, 1 insertion(+), 12 deletions(-)

diff --git a/library/Java/Lang/String/String.cpp b/library/Java/Lang/String/String.cpp
index 0cb2c1f..8333197 100644
--- a/library/Java/Lang/String/String.cpp
+++ b/library/Java/Lang/String/String.cpp
@@ -227,18 +227,7 @@ String String::fromCharArray(const Array<char> &charArray) {
 }
 
 int String::indexOf(int character) const {
-	string pointerHolder;
-	char target = (char) character;
-	if (target == '\0') {
-		pointerHolder = strdup("");
-	} else {
-		auto *result = (string) calloc(2, sizeof(char));
-		result[0] = target;
-		result[1] = '\0';
-		pointerHolder = result;
-	}
-	std::size_t found = this->original.find(pointerHolder);
-	free(pointerHolder);
+	std::size_t found = this->original.find((char) character);
 	if (found != std::string::npos) {
 		return (int) found;
 	}
-- 
2.43.0


From 42542a50c0e00fc70c8d2a4d1df266bd05da0ea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:33 +0000
Subject: [PATCH 004/118] fix: String.lastIndexOf(character, fromIndex) skipped
 fromIndex itself and read past the empty string

---
 library/Java/Lang/String/String.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/library/Java/Lang/String/String.cpp b/library/Java/Lang/String/String.cpp
index 8333197..7999027 100644
--- a/library/Java/Lang/String/String.cpp
+++ b/library/Java/Lang/String/String.cpp
@@ -298,12 +298,12 @@ int String::lastIndexOf(int character, int fromIndex) const {
 	if (fromIndex < 0) {
 		return -1;
 	}
-	if (fromIndex > this->original.size() - 1) {
+	if (fromIndex >= (int) this->original.size()) {
 		return this->lastIndexOf(character);
 	}
 
 	int index = 0;
-	for (index = fromIndex - 1; index >= 0; index--) {
+	for (index = fromIndex; index >= 0; index--) {
 		if (this->charAt(index) == (char) character) {
 			return index;
 		}
-- 
2.43.0


From 8c5ab45e5f3531f83588d89a1dbdfd34fb09c01e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:33 +0000
Subject: [PATCH 005/118] fix: String.contains(CharSequence) ignored everything
 after a NUL character

---
 library/Java/Lang/String/String.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/Java/Lang/String/String.cpp b/library/Java/Lang/String/String.cpp
index 7999027..b593bfb 100644
--- a/library/Java/Lang/String/String.cpp
+++ b/library/Java/Lang/String/String.cpp
@@ -174,7 +174,7 @@ String String::concat(const String &target) const {
 }
 
 boolean String::contains(const CharSequence &charSequence) const {
-	std::size_t found = this->original.find(charSequence.toString().toCharPointer());
+	std::size_t found = this->original.find(charSequence.toString().original);
 	if (found != std::string::npos) {
 		return true;
 	} else {
-- 
2.43.0


From e498c9b171cbe906a432bafbebb955170ba4661d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:33 +0000
Subject: [PATCH 006/118] fix: String.replace and split with an empty target
 never returned

---
 library/Java/Lang/String/String.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/library/Java/Lang/String/String.cpp b/library/Java/Lang/String/String.cpp
index b593bfb..f9252d1 100644
--- a/library/Java/Lang/String/String.cpp
+++ b/library/Java/Lang/String/String.cpp
@@ -375,6 +375,10 @@ Array<String> String::split(const String &regex) const {
 	size_t pre = 0;
 	std::string targetString = regex.original;
 	std::string result;
+	if (targetString.empty()) {
+		strings.push(this->original);
+		return strings;
+	}
 	while ((pos = this->original.find(targetString, pos)) != std::string::npos) {
 
 		for (; pre < pos; pre++) {
@@ -636,6 +640,14 @@ String String::replace(const CharSequence &target, const CharSequence &replaceme
 	std::string targetString = target.toString().original;
 	std::string replaceString = replacement.toString().original;
 	std::string result;
+	if (targetString.empty()) {
+		result += replaceString;
+		for (; pre < this->length(); pre++) {
+			result += this->original[pre];
+			result += replaceString;
+		}
+		return result;
+	}
 	while ((pos = this->original.find(targetString, pos)) != std::string::npos) {
 		for (; pre < pos; pre++) {
 			result += this->original[pre];
-- 
2.43.0


From 86400bfe5f560fe974ff37807e17e3642f30bc73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:33 +0000
Subject: [PATCH 007/118] fix: String.replaceFirst lost characters when nothing
 matched and threw when the match was at the end

---
 library/Java/Lang/String/String.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/library/Java/Lang/String/String.cpp b/library/Java/Lang/String/String.cpp
index f9252d1..4753d8f 100644
--- a/library/Java/Lang/String/String.cpp
+++ b/library/Java/Lang/String/String.cpp
@@ -664,11 +664,12 @@ String String::replace(const CharSequence &target, const CharSequence &replaceme
 
 String String::replaceFirst(const String &regex, const String &replacement) const {
 	// TODO (anhnt) fix this later, temporary, need Pattern
-	int stringWithFirstRegexLength = this->indexOf(regex) + regex.length();
-	String stringWithFirstRegex = this->subString(0, stringWithFirstRegexLength);
-	String remainString = this->getStringFromIndex(stringWithFirstRegexLength);
-	stringWithFirstRegex = stringWithFirstRegex.replace(regex, replacement);
-	return stringWithFirstRegex + remainString;
+	std::size_t firstIndex = this->original.find(regex.original);
+	if (firstIndex == std::string::npos) {
+		return *this;
+	}
+	std::string result = this->original;
+	return result.replace(firstIndex, regex.original.size(), replacement.original);
 }
 
 Array<String> String::split(const String &regex, int limit) const {
-- 
2.43.0


From af901005890af880101042c6276362cdd825f981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:33 +0000
Subject: [PATCH 008/118] fix: String.format read past its 128 byte buffer when
 a formatted value was longer

---
 library/Java/Lang/String/String.cpp | 112 ++++++----------------------
 1 file changed, 23 insertions(+), 89 deletions(-)

diff --git a/library/Java/Lang/String/String.cpp b/library/Java/Lang/String/String.cpp
index 4753d8f..04354c7 100644
--- a/library/Java/Lang/String/String.cpp
+++ b/library/Java/Lang/String/String.cpp
@@ -695,6 +695,18 @@ Array<String> String::split(const String &regex, int limit) const {
 	return strings;
 }
 
+template<typename T>
+static String printValue(const String &format, T value) {
+	char buffer[DEFAULT_BUFFER_LENGTH] = {0};
+	const int length = snprintf(buffer, sizeof(buffer), format.toCharPointer(), value);
+	if (length < (int) sizeof(buffer)) {
+		return length > 0 ? String(buffer, length) : String();
+	}
+	std::vector<char> largeBuffer((size_t) length + 1);
+	snprintf(largeBuffer.data(), largeBuffer.size(), format.toCharPointer(), value);
+	return String(largeBuffer.data(), length);
+}
+
 String String::print(const String &format, bool value) {
 	if (format.original == "%b") {
 		return (value ? "true" : "false");
@@ -706,125 +718,47 @@ String String::print(const String &format, bool value) {
 }
 
 String String::print(const String &format, short value) {
-	String result;
-	char buffer[DEFAULT_BUFFER_LENGTH] = {0};
-	const int length = snprintf(buffer, sizeof(buffer), format.toCharPointer(), value);
-	if (length > 0) {
-		result = String(buffer, length);
-	}
-	return result;
+	return printValue(format, value);
 }
 
 String String::print(const String &format, int value) {
-	String result;
-	char buffer[DEFAULT_BUFFER_LENGTH] = {0};
-	const int length = snprintf(buffer, sizeof(buffer), format.toCharPointer(), value);
-	if (length > 0) {
-		result = String(buffer, length);
-	}
-	return result;
+	return printValue(format, value);
 }
 
 String String::print(const String &format, long value) {
-	String result;
-	char buffer[DEFAULT_BUFFER_LENGTH] = {0};
-	const int length = snprintf(buffer, sizeof(buffer), format.toCharPointer(), value);
-	if (length > 0) {
-		result = String(buffer, length);
-	}
-	return result;
+	return printValue(format, value);
 }
 
 String String::print(const String &format, long long value) {
-    String result;
-    char buffer[DEFAULT_BUFFER_LENGTH] = {0};
-    const int length = snprintf(buffer, sizeof(buffer), format.toCharPointer(), value);
-    if (length > 0) {
-        result = String(buffer, length);
-    }
-    return result;
+	return printValue(format, value);
 }
 
 String String::print(const String &format, unsigned short value) {
-	String result;
-	char buffer[DEFAULT_BUFFER_LENGTH] = {0};
-	const int length = snprintf(buffer, sizeof(buffer), format.toCharPointer(), value);
-	if (length > 0) {
-		result = String(buffer, length);
-	}
-	return result;
+	return printValue(format, value);
 }
 
 String String::print(const String &format, unsigned int value) {
-	String result;
-	char buffer[DEFAULT_BUFFER_LENGTH] = {0};
-	const int length = snprintf(buffer, sizeof(buffer), format.toCharPointer(), value);
-	if (length > 0) {
-		result = String(buffer, length);
-	}
-	return result;
+	return printValue(format, value);
 }
 
 String String::print(const String &format, unsigned long value) {
-	String result;
-	char buffer[DEFAULT_BUFFER_LENGTH] = {0};
-	const int length = snprintf(buffer, sizeof(buffer), format.toCharPointer(), value);
-	if (length > 0) {
-		result = String(buffer, length);
-	}
-	return result;
+	return printValue(format, value);
 }
 
 String String::print(const String &format, double value) {
-	String result;
-	char buffer[DEFAULT_BUFFER_LENGTH] = {0};
-	const int length = snprintf(buffer, sizeof(buffer), format.toCharPointer(), value);
-	if (length > 0) {
-		result = String(buffer, length);
-	}
-	return result;
+	return printValue(format, value);
 }
 
 String String::print(const String &format, float value) {
-	String result;
-	char buffer[DEFAULT_BUFFER_LENGTH] = {0};
-	const int length = snprintf(buffer, sizeof(buffer), format.toCharPointer(), value);
-	if (length > 0) {
-		result = String(buffer, length);
-	}
-	return result;
+	return printValue(format, value);
 }
 
 String String::print(const String &format, string value) {
-	String result;
-	auto buffer = (string) calloc(DEFAULT_BUFFER_LENGTH, sizeof(char));
-	int length = snprintf(buffer, DEFAULT_BUFFER_LENGTH, format.toCharPointer(), value);
-	if (length > DEFAULT_BUFFER_LENGTH) {
-		free(buffer);
-		buffer = (string) calloc(++length, sizeof(char));
-		length = snprintf(buffer, (size_t) length, format.toCharPointer(), value);
-	}
-	if (length > 0) {
-		result = String(buffer, length);
-	}
-	free(buffer);
-	return result;
+	return printValue(format, value);
 }
 
 String String::print(const String &format, const_string value) {
-	String result;
-	auto buffer = (string) calloc(DEFAULT_BUFFER_LENGTH, sizeof(char));
-	int length = snprintf(buffer, DEFAULT_BUFFER_LENGTH, format.toCharPointer(), value);
-	if (length > DEFAULT_BUFFER_LENGTH) {
-		free(buffer);
-		buffer = (string) calloc(++length, sizeof(char));
-		length = snprintf(buffer, (size_t) length, format.toCharPointer(), value);
-	}
-	if (length > 0) {
-		result = String(buffer, length);
-	}
-	free(buffer);
-	return result;
+	return printValue(format, value);
 }
 
 String String::print(const String &format, Boolean value) {
-- 
2.43.0


From 837399766475ce40258855edbd8282272214a9a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:33 +0000
Subject: [PATCH 009/118] fix: String comparisons stopped at a NUL character,
 so that unequal strings compared equal

---
 library/Java/Lang/String/String.cpp | 14 +++++++++++---
 library/Java/Lang/String/String.hpp |  8 ++++----
 2 files changed, 15 insertions(+), 7 deletions(-)

diff --git a/library/Java/Lang/String/String.cpp b/library/Java/Lang/String/String.cpp
index 04354c7..7371a3d 100644
--- a/library/Java/Lang/String/String.cpp
+++ b/library/Java/Lang/String/String.cpp
@@ -162,11 +162,19 @@ char String::charAt(int index) const {
 }
 
 int String::compareTo(const String &anotherString) const {
-	return strcmp(this->original.c_str(), anotherString.original.c_str());
+	return this->original.compare(anotherString.original);
 }
 
 int String::compareToIgnoreCase(const String &anotherString) const {
-	return strcasecmp(this->original.c_str(), anotherString.original.c_str());
+	size_t length = std::min(this->original.size(), anotherString.original.size());
+	for (size_t index = 0; index < length; index++) {
+		int difference = tolower((unsigned char) this->original[index])
+		                 - tolower((unsigned char) anotherString.original[index]);
+		if (difference != 0) {
+			return difference;
+		}
+	}
+	return (int) this->original.size() - (int) anotherString.original.size();
 }
 
 String String::concat(const String &target) const {
@@ -558,7 +566,7 @@ String String::subString(int beginIndex, int endIndex) const {
 }
 
 boolean String::contentEquals(const CharSequence &charSequence) const {
-	return strcmp(this->original.c_str(), charSequence.toString().toCharPointer()) == 0;
+	return this->original == charSequence.toString().original;
 }
 
 String String::copyValueOf(const Array<char> &charArray) {
diff --git a/library/Java/Lang/String/String.hpp b/library/Java/Lang/String/String.hpp
index 91da0b6..69c8461 100644
--- a/library/Java/Lang/String/String.hpp
+++ b/library/Java/Lang/String/String.hpp
@@ -1094,7 +1094,7 @@ namespace Java {
             * @return true if this String is smaller than target; false otherwise
             */
             inline boolean operator<(const String &target) const {
-                return strcmp(this->original.c_str(), target.toCharPointer()) < 0;
+                return this->original < target.original;
             }
 
             /**
@@ -1104,7 +1104,7 @@ namespace Java {
              * @return true if this String is greater than target; false otherwise
              */
             inline boolean operator>(const String &target) const {
-                return strcmp(this->original.c_str(), target.toCharPointer()) > 0;
+                return this->original > target.original;
             }
 
             /**
@@ -1114,7 +1114,7 @@ namespace Java {
             * @return true if this String is smaller than or equal to target; false otherwise
             */
             inline boolean operator<=(const String &target) const {
-                return strcmp(this->original.c_str(), target.toCharPointer()) <= 0;
+                return this->original <= target.original;
             }
 
             /**
@@ -1124,7 +1124,7 @@ namespace Java {
              * @return true if this String is greater than or equal to target; false otherwise
              */
             inline boolean operator>=(const String &target) const {
-                return strcmp(this->original.c_str(), target.toCharPointer()) >= 0;
+                return this->original >= target.original;
             }
 
             /**
-- 
2.43.0


From 8e454304db2f5684f5b6b363b70ef01373a81f50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:33 +0000
Subject: [PATCH 010/118] fix: String.toUpperCase and toLowerCase dropped
 everything after a NUL character

---
 library/Java/Lang/String/String.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/library/Java/Lang/String/String.cpp b/library/Java/Lang/String/String.cpp
index 7371a3d..3510e00 100644
--- a/library/Java/Lang/String/String.cpp
+++ b/library/Java/Lang/String/String.cpp
@@ -36,7 +36,7 @@ std::wstring multiByteStringToWideString(const std::string &input) {
     setlocale(LC_CTYPE, "");
     try {
         std::wstring_convert<std::codecvt_utf8<wchar_t>> convertToWstring;
-        return convertToWstring.from_bytes(input.c_str());
+        return convertToWstring.from_bytes(input);
     } catch (std::exception &exception) {
         std::wstring emptyString;
         return emptyString;
@@ -47,7 +47,7 @@ std::string wideStringToMultiByteString(const std::wstring &input) {
     setlocale(LC_CTYPE, "");
     try {
         std::wstring_convert<std::codecvt_utf8<wchar_t>> convertToString;
-        return convertToString.to_bytes(input.c_str());
+        return convertToString.to_bytes(input);
     } catch (std::exception &exception) {
         std::string emptyString;
         return emptyString;
-- 
2.43.0


From 38ecac8b60c3a0f032c0b9a9dee7084a5504febc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:33 +0000
Subject: [PATCH 011/118] fix: String.trim removed spaces only, not the other
 white space its documentation names

---
 library/Java/Lang/String/String.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/library/Java/Lang/String/String.cpp b/library/Java/Lang/String/String.cpp
index 3510e00..542369b 100644
--- a/library/Java/Lang/String/String.cpp
+++ b/library/Java/Lang/String/String.cpp
@@ -470,11 +470,12 @@ String String::toUpperCase() const {
 }
 
 String String::trim() const {
-	size_t first = this->original.find_first_not_of(' ');
+	const_string whitespace = " \t\n\v\f\r";
+	size_t first = this->original.find_first_not_of(whitespace);
 	if (std::string::npos == first) {
 		return "";
 	}
-	size_t last = this->original.find_last_not_of(' ');
+	size_t last = this->original.find_last_not_of(whitespace);
 	return this->original.substr(first, (last - first + 1));
 }
 
-- 
2.43.0


From 80997f7c356be83475e42680b921882753fbcfed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:13 +0000
Subject: [PATCH 012/118] fix: assigning a StringBuilder shared its buffer,
 which was then freed twice; toString cut at a NUL character

---
 library/Java/Lang/StringBuilder/StringBuilder.cpp | 12 ++++++++++--
 library/Java/Lang/StringBuilder/StringBuilder.hpp |  8 ++++++++
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/library/Java/Lang/StringBuilder/StringBuilder.cpp b/library/Java/Lang/StringBuilder/StringBuilder.cpp
index 3f793ab..16e547f 100755
--- a/library/Java/Lang/StringBuilder/StringBuilder.cpp
+++ b/library/Java/Lang/StringBuilder/StringBuilder.cpp
@@ -73,6 +73,14 @@ StringBuilder::StringBuilder(const StringBuilder &target) {
 	this->currentCapacity = target.currentCapacity;
 }
 
+StringBuilder &StringBuilder::operator=(const StringBuilder &target) {
+	if (this != &target) {
+		this->setLength(0);
+		this->append((const CharSequence &) target);
+	}
+	return *this;
+}
+
 StringBuilder::~StringBuilder() {
 	free(original);
 }
@@ -648,7 +656,7 @@ String StringBuilder::substring(int start, int end) const {
 		indexOfSubString = indexOfSubString + 1;
 	}
 	copyOfSubString[ indexOfSubString ] = '\0';
-	String result(copyOfSubString);
+	String result(copyOfSubString, end - start);
 	free(copyOfSubString);
 	return result;
 }
@@ -661,7 +669,7 @@ String StringBuilder::toString() const {
 		content[index] = this->original[index];
 	}
 	content[this->currentLength] = '\0';
-	this->backupOriginalForToString = content;
+	this->backupOriginalForToString = String(content, this->currentLength);
 	free(content);
 	return this->backupOriginalForToString;
 }
diff --git a/library/Java/Lang/StringBuilder/StringBuilder.hpp b/library/Java/Lang/StringBuilder/StringBuilder.hpp
index 3c6185d..92d90b4 100644
--- a/library/Java/Lang/StringBuilder/StringBuilder.hpp
+++ b/library/Java/Lang/StringBuilder/StringBuilder.hpp
@@ -102,6 +102,14 @@ namespace Java {
 						 * StringBuilder Destructor
 						 */
                         virtual ~StringBuilder();
+
+                        /**
+                         * Replaces the characters of this sequence by those of the target
+                         *
+                         * @param target
+                         * @return a reference to this object
+                         */
+                        StringBuilder &operator=(const StringBuilder &target);
                 
                 public:
                         /**
-- 
2.43.0


From 3ecc1c7365d51a0e766aa86216e6776514282d0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:13 +0000
Subject: [PATCH 013/118] fix: StringBuilder.indexOf missed occurrences and
 read outside the pattern

---
 library/Java/Lang/StringBuilder/StringBuilder.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/library/Java/Lang/StringBuilder/StringBuilder.cpp b/library/Java/Lang/StringBuilder/StringBuilder.cpp
index 16e547f..7a64b13 100755
--- a/library/Java/Lang/StringBuilder/StringBuilder.cpp
+++ b/library/Java/Lang/StringBuilder/StringBuilder.cpp
@@ -743,7 +743,7 @@ int StringBuilder::stringMatches(const String target, const String pattern, int
 	}
 	
 	// KMP algorithm.
-	int *nextTable = this->initializeNextTable(target);
+	int *nextTable = this->initializeNextTable(pattern);
 	if (nextTable == nullptr) {
 		return -1;
 	}
@@ -758,7 +758,7 @@ int StringBuilder::stringMatches(const String target, const String pattern, int
 			position = position + 1;
 		} else {
 			if (nextTable[ position ] > -1) {
-				startIndex = startIndex + position;
+				startIndex = startIndex + position - nextTable[ position ];
 				position = nextTable[ position ];
 			} else {
 				startIndex = startIndex + 1;
-- 
2.43.0


From 9dc7a278f0d73c3d948a0dfd43982e2f4261e844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:13 +0000
Subject: [PATCH 014/118] fix: StringBuilder.lastIndexOf missed occurrences

---
 .../Java/Lang/StringBuilder/StringBuilder.cpp | 38 ++++++-------------
 1 file changed, 11 insertions(+), 27 deletions(-)

diff --git a/library/Java/Lang/StringBuilder/StringBuilder.cpp b/library/Java/Lang/StringBuilder/StringBuilder.cpp
index 7a64b13..c42dd78 100755
--- a/library/Java/Lang/StringBuilder/StringBuilder.cpp
+++ b/library/Java/Lang/StringBuilder/StringBuilder.cpp
@@ -779,42 +779,26 @@ int StringBuilder::stringMatchesReverse(const String target, const String patter
 		return -1;
 	}
 	
-	int rightIndex = lengthOfTarget - lengthOfPattern;
-	if (startIndex < rightIndex) {
-		startIndex = rightIndex;
-	}
-	
 	// Empty string always matches.
 	if (lengthOfPattern == 0) {
-		return startIndex;
+		return startIndex < lengthOfTarget ? startIndex : lengthOfTarget;
 	}
 	
-	// KMP algorithm.
-	int *nextTable = this->initializeNextTable(pattern);
-	if (nextTable == nullptr) {
-		return -1;
+	// startIndex is the last position which the occurrence may cover.
+	if (startIndex > lengthOfTarget - 1) {
+		startIndex = lengthOfTarget - 1;
 	}
 	
-	int position = 0;
-	while (startIndex - position >= 0) {
-		if (pattern[ lengthOfPattern - position - 1 ] == target[ startIndex - position ]) {
-			if (position == lengthOfPattern - 1) {
-				free(nextTable);
-				return startIndex - lengthOfPattern + 1;
-			}
+	int index;
+	for (index = startIndex - lengthOfPattern + 1; index >= 0; index--) {
+		int position = 0;
+		while (position < lengthOfPattern && pattern[ position ] == target[ index + position ]) {
 			position = position + 1;
-		} else {
-			if (nextTable[ position ] > -1) {
-				startIndex = startIndex - position;
-				position = nextTable[ position ];
-			} else {
-				startIndex = startIndex - 1;
-				position = 0;
-			}
+		}
+		if (position == lengthOfPattern) {
+			return index;
 		}
 	}
-	
-	free(nextTable);
 	return -1;
 }
 
-- 
2.43.0


From 8309ddb1a3374d0998de5aae44936334a69aea5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:13 +0000
Subject: [PATCH 015/118] fix: StringBuilder.append and insert of a C string
 added the text "true"

---
 library/Java/Lang/StringBuilder/StringBuilder.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/library/Java/Lang/StringBuilder/StringBuilder.hpp b/library/Java/Lang/StringBuilder/StringBuilder.hpp
index 92d90b4..10d2065 100644
--- a/library/Java/Lang/StringBuilder/StringBuilder.hpp
+++ b/library/Java/Lang/StringBuilder/StringBuilder.hpp
@@ -226,6 +226,9 @@ namespace Java {
 						 * @return
 						 */
                         StringBuilder &append(String target);
+                        inline StringBuilder &append(const_string target) {
+                                return this->append(String(target));
+                        }
                         
                         /**
 						 * Appends the string representation of the Double argument to this sequence.
@@ -672,6 +675,9 @@ namespace Java {
 						 * @throw StringIndexOutOfBoundsException - if the offset is invalid.
 						 */
                         StringBuilder &insert(int offset, const String target);
+                        inline StringBuilder &insert(int offset, const_string target) {
+                                return this->insert(offset, String(target));
+                        }
                         
                         /**
 						 * This method accepts a String as an argument, if the string argument occurs one or more times as a substring within this object,
-- 
2.43.0


From 2269277fa8fe9d888d88d793de1f339794ef7483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:13 +0000
Subject: [PATCH 016/118] fix: StringBuffer.toString and getValue read past a
 full buffer and showed characters that had been deleted

---
 library/Java/Lang/String/String.cpp           |  4 +--
 .../Java/Lang/StringBuffer/StringBuffer.cpp   | 35 ++++++++++---------
 2 files changed, 20 insertions(+), 19 deletions(-)

diff --git a/library/Java/Lang/String/String.cpp b/library/Java/Lang/String/String.cpp
index 542369b..83123a3 100644
--- a/library/Java/Lang/String/String.cpp
+++ b/library/Java/Lang/String/String.cpp
@@ -101,11 +101,11 @@ String::String(const String &target) {
 }
 
 String::String(const StringBuilder &stringBuilder) {
-	this->original = std::string(stringBuilder.toString().toCharPointer());
+	this->original = stringBuilder.toString().original;
 }
 
 String::String(const StringBuffer &stringBuffer) {
-	this->original = std::string(stringBuffer.getValue().toCharPointer());
+	this->original = stringBuffer.toString().original;
 }
 
 String::String(const Array<char> &array, int offset, int length) {
diff --git a/library/Java/Lang/StringBuffer/StringBuffer.cpp b/library/Java/Lang/StringBuffer/StringBuffer.cpp
index db6cdf7..592b7ff 100755
--- a/library/Java/Lang/StringBuffer/StringBuffer.cpp
+++ b/library/Java/Lang/StringBuffer/StringBuffer.cpp
@@ -39,13 +39,13 @@ StringBufferUnSafe::StringBufferUnSafe(int capacity) {
     }
 
     this->currentCapacity = capacity;
-    this->original = (string) calloc((size_t) this->currentCapacity,
+    this->original = (string) calloc((size_t) this->currentCapacity + 1,
                                      sizeof(char));
 }
 
 StringBufferUnSafe::StringBufferUnSafe(const String &originalString) {
     this->currentCapacity = originalString.length() + DEFAULT_CAPACITY;
-    this->original = (string) calloc((size_t) this->currentCapacity,
+    this->original = (string) calloc((size_t) this->currentCapacity + 1,
                                      sizeof(char));
     this->append(originalString);
 }
@@ -57,7 +57,7 @@ StringBufferUnSafe::StringBufferUnSafe(const CharSequence &sequence) {
         this->currentCapacity = sequence.length() + DEFAULT_CAPACITY;
     }
 
-    this->original = (string) calloc((size_t) this->currentCapacity,
+    this->original = (string) calloc((size_t) this->currentCapacity + 1,
                                      sizeof(char));
     this->append(sequence);
 }
@@ -67,6 +67,7 @@ int StringBufferUnSafe::capacity() const {
 }
 
 string StringBufferUnSafe::getValue() const {
+    this->original[this->currentLength] = '\0';
     return this->original;
 }
 
@@ -104,7 +105,7 @@ void StringBufferUnSafe::ensureCapacity(int minimumCapacity) {
     } while (newCapacity < minimumCapacity);
 
     int newSize = newCapacity * sizeof(char);
-    this->original = (string) allocateMemory(this->original, (size_t) newSize);
+    this->original = (string) allocateMemory(this->original, (size_t) newSize + 1);
 }
 
 StringBufferUnSafe &StringBufferUnSafe::append(const String &stringToAppend) {
@@ -151,7 +152,7 @@ StringBufferUnSafe::insert(int index, String stringToInsert, int offset,
 }
 
 StringBufferUnSafe::StringBufferUnSafe(const StringBufferUnSafe &other) {
-    this->original = (string) calloc((size_t) other.currentCapacity,
+    this->original = (string) calloc((size_t) other.currentCapacity + 1,
                                      sizeof(char));
     int index;
     for (index = 0; index < other.currentLength; index++) {
@@ -203,7 +204,7 @@ StringBufferUnSafe &StringBufferUnSafe::append(char charValue) {
 
 StringBufferUnSafe &
 StringBufferUnSafe::append(const StringBufferUnSafe &stringBufferUnSafe) {
-    return this->append(stringBufferUnSafe.getValue());
+    return this->append(stringBufferUnSafe.toString());
 }
 
 StringBufferUnSafe &StringBufferUnSafe::appendCodePoint(int codePoint) {
@@ -367,22 +368,22 @@ StringBufferUnSafe::~StringBufferUnSafe() {
 }*/
 
 int StringBufferUnSafe::indexOf(const String &stringToGetIndex) const {
-    return indexOf(stringToGetIndex.toCharPointer(), 0);
+    return indexOf(stringToGetIndex, 0);
 }
 
 int StringBufferUnSafe::indexOf(const String &stringToGetIndex, int fromIndex) const {
-    std::string originalString = this->original;
+    std::string originalString(this->original, (size_t) this->currentLength);
     if (fromIndex < 0) {
         return this->indexOf(stringToGetIndex);
     }
-    if (originalString.size() == 0 || stringToGetIndex == "") {
+    if (originalString.size() == 0 || stringToGetIndex.length() == 0) {
         return -1;
     }
     if (fromIndex > (originalString.size() - 1)||(originalString.size()) < (stringToGetIndex.length())){
         return -1;
     }
     std::string stringFromIndex=originalString.substr(fromIndex);
-    std::size_t found = stringFromIndex.find(stringToGetIndex.toString().toCharPointer());
+    std::size_t found = stringFromIndex.find(stringToGetIndex.toSTLString());
     if (found != std::string::npos) {
         return (found + fromIndex);
     } else {
@@ -469,7 +470,7 @@ StringBufferUnSafe::insert(int destinationOffset, const CharSequence &sequence,
 }
 
 int StringBufferUnSafe::lastIndexOf(const String &stringToGetIndex) const {
-    String originalString = this->original;
+    String originalString = this->toString();
     return originalString.lastIndexOf(stringToGetIndex);
 }
 
@@ -628,13 +629,13 @@ String StringBufferUnSafe::subString(int start, int end) const {
                                           sizeof(char));
     int memorySizeToCopy = resultStringLength * sizeof(char);
     memcpy(resultString, this->original + start, (size_t) memorySizeToCopy);
-    String result = String(resultString);
+    String result = String(resultString, resultStringLength);
     free(resultString);
     return result;
 }
 
 String StringBufferUnSafe::toString() const {
-    return this->original;
+    return String(this->original, this->currentLength);
 }
 
 void StringBufferUnSafe::trimToSize() {
@@ -642,14 +643,14 @@ void StringBufferUnSafe::trimToSize() {
         return;
     }
     int newSize = this->currentLength * sizeof(char);
-    this->original = (string) allocateMemory(this->original, (size_t) newSize);
+    this->original = (string) allocateMemory(this->original, (size_t) newSize + 1);
     this->currentCapacity = this->currentLength;
 }
 
 StringBufferUnSafe &
 StringBufferUnSafe::operator=(const StringBufferUnSafe &other) {
     free(this->original);
-    this->original = (string) calloc((size_t) other.currentCapacity,
+    this->original = (string) calloc((size_t) other.currentCapacity + 1,
                                      sizeof(char));
     int index;
     for (index = 0; index < other.currentLength; index++) {
@@ -679,7 +680,7 @@ StringBuffer::StringBuffer(const String &originalString) : StringBufferUnSafe(
 StringBuffer::StringBuffer(const StringBuffer &other) {
     std::lock_guard<std::mutex> guard(this->mutex);
     free(this->original);
-    this->original = (string) calloc((size_t) other.currentCapacity,
+    this->original = (string) calloc((size_t) other.currentCapacity + 1,
                                      sizeof(char));
     int index;
     for (index = 0; index < other.currentLength; index++) {
@@ -973,7 +974,7 @@ void StringBuffer::trimToSize() {
 StringBuffer &StringBuffer::operator=(const StringBuffer &other) {
     std::lock_guard<std::mutex> guard(this->mutex);
     free(this->original);
-    this->original = (string) calloc((size_t) other.currentCapacity,
+    this->original = (string) calloc((size_t) other.currentCapacity + 1,
                                      sizeof(char));
     int index;
     for (index = 0; index < other.currentLength; index++) {
-- 
2.43.0


From 9c9d0c9af771f61f84df720beaa5d564ef8c89b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:13 +0000
Subject: [PATCH 017/118] fix: StringBuffer.deletes and deleteCharAt read past
 the buffer

---
 library/Java/Lang/StringBuffer/StringBuffer.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/library/Java/Lang/StringBuffer/StringBuffer.cpp b/library/Java/Lang/StringBuffer/StringBuffer.cpp
index 592b7ff..b8b760d 100755
--- a/library/Java/Lang/StringBuffer/StringBuffer.cpp
+++ b/library/Java/Lang/StringBuffer/StringBuffer.cpp
@@ -322,11 +322,11 @@ StringBufferUnSafe &StringBufferUnSafe::deletes(int start, int end) {
 
     if (end > this->currentLength) {
         fromPosition = this->original + this->currentLength;
-        memorySizeToMove = this->currentLength * sizeof(char);
+        memorySizeToMove = 0;
         this->currentLength = start;
     } else {
         fromPosition = this->original + end;
-        memorySizeToMove = (this->currentLength - start) * sizeof(char);
+        memorySizeToMove = (this->currentLength - end) * sizeof(char);
         this->currentLength -= (end - start);
     }
 
@@ -347,7 +347,7 @@ StringBufferUnSafe &StringBufferUnSafe::deleteCharAt(int index) {
     // move block of memory from index + 1 to index
     string fromPosition = this->original + index + 1;
     string toPosition = this->original + index;
-    int memorySizeToMove = (this->currentLength - index) * sizeof(char);
+    int memorySizeToMove = (this->currentLength - index - 1) * sizeof(char);
     memmove(toPosition, fromPosition, (size_t) memorySizeToMove);
     this->currentLength--;
     return *this;
-- 
2.43.0


From 3d6402719952a19258943a2ea81819540e2acfde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:13 +0000
Subject: [PATCH 018/118] fix: StringBuffer.replace lost or overran the text
 after the replaced range

---
 library/Java/Lang/StringBuffer/StringBuffer.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/library/Java/Lang/StringBuffer/StringBuffer.cpp b/library/Java/Lang/StringBuffer/StringBuffer.cpp
index b8b760d..f2472db 100755
--- a/library/Java/Lang/StringBuffer/StringBuffer.cpp
+++ b/library/Java/Lang/StringBuffer/StringBuffer.cpp
@@ -515,13 +515,14 @@ StringBufferUnSafe &StringBufferUnSafe::replace(int start, int end, const String
 
     int newLength =
             this->currentLength + stringToReplace.length() - end + start;
+    int memorySizeOfTail = (this->currentLength - end) * sizeof(char);
     this->ensureCapacity(newLength);
     this->currentLength = newLength;
 
     string fromPosition = this->original + end;
     string toPosition = this->original + start + stringToReplace.length();
     int memorySizeToMove = stringToReplace.length() * sizeof(char);
-    memmove(toPosition, fromPosition, (size_t) memorySizeToMove);
+    memmove(toPosition, fromPosition, (size_t) memorySizeOfTail);
 
     string insertPosition = this->original + start;
     memcpy(insertPosition, stringToReplace.toCharPointer(),
-- 
2.43.0


From 0c3df4180d2f07b0f70730213bea97c79443f4b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:13 +0000
Subject: [PATCH 019/118] fix: StringBuffer.setLength wrote one character past
 the buffer

---
 library/Java/Lang/StringBuffer/StringBuffer.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/library/Java/Lang/StringBuffer/StringBuffer.cpp b/library/Java/Lang/StringBuffer/StringBuffer.cpp
index f2472db..d32cf0d 100755
--- a/library/Java/Lang/StringBuffer/StringBuffer.cpp
+++ b/library/Java/Lang/StringBuffer/StringBuffer.cpp
@@ -587,12 +587,12 @@ void StringBufferUnSafe::setLength(int newLength) {
     int oldLength = this->currentLength;
     if (newLength > this->currentLength) {
         this->ensureCapacity(newLength);
-        for (oldLength; oldLength <= newLength; oldLength++) {
+        for (oldLength; oldLength < newLength; oldLength++) {
             this->original[oldLength] = '\0';
         }
     } else {
-        for (oldLength; oldLength >= newLength; oldLength--) {
-            this->original[oldLength] = '\0';
+        for (oldLength; oldLength > newLength; oldLength--) {
+            this->original[oldLength - 1] = '\0';
         }
     }
     this->currentLength = newLength;
-- 
2.43.0


From 2267ce73d7a39af3693cc64a65805a4577984aa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:13 +0000
Subject: [PATCH 020/118] fix: StringBuffer.lastIndexOf with a start index
 threw or missed occurrences

---
 library/Java/Lang/StringBuffer/StringBuffer.cpp | 17 +++++------------
 1 file changed, 5 insertions(+), 12 deletions(-)

diff --git a/library/Java/Lang/StringBuffer/StringBuffer.cpp b/library/Java/Lang/StringBuffer/StringBuffer.cpp
index d32cf0d..2c8e546 100755
--- a/library/Java/Lang/StringBuffer/StringBuffer.cpp
+++ b/library/Java/Lang/StringBuffer/StringBuffer.cpp
@@ -476,19 +476,12 @@ int StringBufferUnSafe::lastIndexOf(const String &stringToGetIndex) const {
 
 int
 StringBufferUnSafe::lastIndexOf(const String &stringToGetIndex, int fromIndex) const {
-    String reversedString = StringBuilder(stringToGetIndex).reverse();
-    String reversedOriginalString = StringBuilder(this->original).reverse();
-
-    int substringIndex = this->length() - fromIndex - stringToGetIndex.length();
-    reversedOriginalString = reversedOriginalString.getStringFromIndex(substringIndex);
-    int result = reversedOriginalString.indexOf(reversedString);
-
-    // Calculate result with original
-    if (result == -1) {
-        return result;
+    if (fromIndex < 0) {
+        return -1;
     }
-    result = reversedOriginalString.length() - stringToGetIndex.length() - result;
-    return result;
+    std::string originalString(this->original, (size_t) this->currentLength);
+    std::size_t found = originalString.rfind(stringToGetIndex.toSTLString(), (size_t) fromIndex);
+    return found == std::string::npos ? -1 : (int) found;
 }
 
 int
-- 
2.43.0


From e9204ef3a44bc71d8f37fd379f29220510711dc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:13 +0000
Subject: [PATCH 021/118] fix: StringBuffer.append and insert dropped a NUL
 character

---
 library/Java/Lang/StringBuffer/StringBuffer.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/library/Java/Lang/StringBuffer/StringBuffer.cpp b/library/Java/Lang/StringBuffer/StringBuffer.cpp
index 2c8e546..b5f5332 100755
--- a/library/Java/Lang/StringBuffer/StringBuffer.cpp
+++ b/library/Java/Lang/StringBuffer/StringBuffer.cpp
@@ -199,7 +199,7 @@ StringBufferUnSafe &StringBufferUnSafe::append(boolean boolValue) {
 }
 
 StringBufferUnSafe &StringBufferUnSafe::append(char charValue) {
-    return this->append(String::valueOf(charValue).toString());
+    return this->append(String(&charValue, 1));
 }
 
 StringBufferUnSafe &
@@ -424,7 +424,7 @@ StringBufferUnSafe::insert(int offset, string stringToInsert) {
 }
 
 StringBufferUnSafe &StringBufferUnSafe::insert(int offset, char charValue) {
-    String value = String::valueOf(charValue);
+    String value = String(&charValue, 1);
     return this->insert(offset, value.toString(), 0, value.length());
 }
 
-- 
2.43.0


From 682973754cf4c02af2e36b1a07568972e9f2e866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:13 +0000
Subject: [PATCH 022/118] fix: StringBuffer.codePointCount read past the range;
 subString refused the empty string at the end

---
 library/Java/Lang/StringBuffer/StringBuffer.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/library/Java/Lang/StringBuffer/StringBuffer.cpp b/library/Java/Lang/StringBuffer/StringBuffer.cpp
index b5f5332..b972765 100755
--- a/library/Java/Lang/StringBuffer/StringBuffer.cpp
+++ b/library/Java/Lang/StringBuffer/StringBuffer.cpp
@@ -293,8 +293,8 @@ int StringBufferUnSafe::codePointCount(int beginIndex, int endIndex) const {
 
     int codePointCount = endIndex - beginIndex;
     for (beginIndex; beginIndex < endIndex; beginIndex++) {
-        if (Character::isHighSurrogate(this->original[beginIndex + 1]) &&
-            beginIndex < endIndex
+        if (beginIndex + 1 < endIndex
+            && Character::isHighSurrogate(this->original[beginIndex + 1])
             && Character::isLowSurrogate(this->original[beginIndex])) {
             codePointCount--;
             beginIndex++;
@@ -613,7 +613,7 @@ String StringBufferUnSafe::subString(int start, int end) const {
         throw StringIndexOutOfBoundsException("start and end must be positive");
     }
 
-    if (start >= this->currentLength || end > this->currentLength ||
+    if (start > this->currentLength || end > this->currentLength ||
         start > end) {
         throw StringIndexOutOfBoundsException();
     }
-- 
2.43.0


From 3dacdc58a1a3a59e15b456e7bdc733ac1d3f83cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:14 +0000
Subject: [PATCH 023/118] fix: StringBuffer read other buffers, its length and
 its value without holding the lock; self-assignment freed the text

---
 .../Java/Lang/StringBuffer/StringBuffer.cpp   | 44 ++++++++++++++++---
 .../Java/Lang/StringBuilder/StringBuilder.cpp |  9 +++-
 2 files changed, 44 insertions(+), 9 deletions(-)

diff --git a/library/Java/Lang/StringBuffer/StringBuffer.cpp b/library/Java/Lang/StringBuffer/StringBuffer.cpp
index b972765..5e0f7f6 100755
--- a/library/Java/Lang/StringBuffer/StringBuffer.cpp
+++ b/library/Java/Lang/StringBuffer/StringBuffer.cpp
@@ -122,7 +122,7 @@ StringBufferUnSafe::append(const String &stringToAppend, int offset, int len) {
         throw IndexOutOfBoundsException();
     }
 
-    this->ensureCapacity(this->length() + len);
+    this->ensureCapacity(this->currentLength + len);
     string appendPosition = this->original + this->currentLength;
     string startIndex = stringToAppend.toCharPointer() + offset;
     int memorySizeToMove = len * sizeof(char);
@@ -134,12 +134,12 @@ StringBufferUnSafe::append(const String &stringToAppend, int offset, int len) {
 StringBufferUnSafe &
 StringBufferUnSafe::insert(int index, String stringToInsert, int offset,
                            int len) {
-    if (index < 0 || index > length() || offset < 0
+    if (index < 0 || index > this->currentLength || offset < 0
         || len < 0 || (offset + len) > stringToInsert.length()) {
         throw StringIndexOutOfBoundsException();
     }
 
-    this->ensureCapacity(this->length() + len);
+    this->ensureCapacity(this->currentLength + len);
     string insertPosition = this->original + index;
     string newTailStart = this->original + index + len;
     int memorySizeToMove = (this->currentLength - index) * sizeof(char);
@@ -470,7 +470,7 @@ StringBufferUnSafe::insert(int destinationOffset, const CharSequence &sequence,
 }
 
 int StringBufferUnSafe::lastIndexOf(const String &stringToGetIndex) const {
-    String originalString = this->toString();
+    String originalString = StringBufferUnSafe::toString();
     return originalString.lastIndexOf(stringToGetIndex);
 }
 
@@ -643,6 +643,9 @@ void StringBufferUnSafe::trimToSize() {
 
 StringBufferUnSafe &
 StringBufferUnSafe::operator=(const StringBufferUnSafe &other) {
+    if (this == &other) {
+        return *this;
+    }
     free(this->original);
     this->original = (string) calloc((size_t) other.currentCapacity + 1,
                                      sizeof(char));
@@ -672,7 +675,7 @@ StringBuffer::StringBuffer(const String &originalString) : StringBufferUnSafe(
 }
 
 StringBuffer::StringBuffer(const StringBuffer &other) {
-    std::lock_guard<std::mutex> guard(this->mutex);
+    std::lock_guard<std::mutex> guard(other.mutex);
     free(this->original);
     this->original = (string) calloc((size_t) other.currentCapacity + 1,
                                      sizeof(char));
@@ -709,6 +712,9 @@ StringBuffer &StringBuffer::append(boolean boolValue) {
 }
 
 StringBuffer &StringBuffer::append(const CharSequence &sequence) {
+    if (&sequence != nullptr) {
+        return this->append(sequence.toString());
+    }
     std::lock_guard<std::mutex> guard(this->mutex);
     StringBufferUnSafe::append(sequence);
     return *this;
@@ -745,6 +751,12 @@ StringBuffer &StringBuffer::append(string stringToAppend, int offset, int len) {
 }
 
 StringBuffer &StringBuffer::append(const CharSequence &sequence, int start, int end) {
+    if (&sequence != nullptr) {
+        String value = sequence.toString();
+        std::lock_guard<std::mutex> guard(this->mutex);
+        StringBufferUnSafe::append((const CharSequence &) value, start, end);
+        return *this;
+    }
     std::lock_guard<std::mutex> guard(this->mutex);
     StringBufferUnSafe::append(sequence, start, end);
     return *this;
@@ -757,8 +769,9 @@ StringBuffer &StringBuffer::appendCodePoint(int codePoint) {
 }
 
 StringBuffer &StringBuffer::append(const StringBuffer &stringBuffer) {
+    String value = stringBuffer.toString();
     std::lock_guard<std::mutex> guard(this->mutex);
-    StringBufferUnSafe::append(stringBuffer);
+    StringBufferUnSafe::append(value);
     return *this;
 }
 
@@ -794,10 +807,12 @@ StringBuffer &StringBuffer::deletes(int start, int end) {
 }
 
 void StringBuffer::ensureCapacity(int minimumCapacity) {
+    std::lock_guard<std::mutex> guard(this->mutex);
     StringBufferUnSafe::ensureCapacity(minimumCapacity);
 }
 
 String StringBuffer::getValue() const {
+    std::lock_guard<std::mutex> guard(this->mutex);
     return StringBufferUnSafe::getValue();
 }
 
@@ -814,6 +829,7 @@ StringBuffer &StringBuffer::deleteCharAt(int index) {
 }
 
 int StringBuffer::length() const {
+    std::lock_guard<std::mutex> guard(this->mutex);
     return StringBufferUnSafe::length();
 }
 
@@ -873,6 +889,12 @@ StringBuffer &StringBuffer::insert(int offset, double doubleValue) {
 StringBuffer &
 StringBuffer::insert(int destinationOffset, const CharSequence &sequence, int start,
                      int end) {
+    if (&sequence != nullptr) {
+        String value = sequence.toString();
+        std::lock_guard<std::mutex> guard(this->mutex);
+        StringBufferUnSafe::insert(destinationOffset, (const CharSequence &) value, start, end);
+        return *this;
+    }
     std::lock_guard<std::mutex> guard(this->mutex);
     StringBufferUnSafe::insert(destinationOffset, sequence, start, end);
     return *this;
@@ -891,6 +913,9 @@ StringBuffer &StringBuffer::insert(int offset, int intValue) {
 }
 
 StringBuffer &StringBuffer::insert(int offset, const CharSequence &charSequence) {
+    if (&charSequence != nullptr) {
+        return this->insert(offset, charSequence.toString());
+    }
     std::lock_guard<std::mutex> guard(this->mutex);
     StringBufferUnSafe::insert(offset, &charSequence);
     return *this;
@@ -966,7 +991,12 @@ void StringBuffer::trimToSize() {
 }
 
 StringBuffer &StringBuffer::operator=(const StringBuffer &other) {
-    std::lock_guard<std::mutex> guard(this->mutex);
+    if (this == &other) {
+        return *this;
+    }
+    std::unique_lock<std::mutex> guard(this->mutex, std::defer_lock);
+    std::unique_lock<std::mutex> otherGuard(other.mutex, std::defer_lock);
+    std::lock(guard, otherGuard);
     free(this->original);
     this->original = (string) calloc((size_t) other.currentCapacity + 1,
                                      sizeof(char));
diff --git a/library/Java/Lang/StringBuilder/StringBuilder.cpp b/library/Java/Lang/StringBuilder/StringBuilder.cpp
index c42dd78..ac8ae6d 100755
--- a/library/Java/Lang/StringBuilder/StringBuilder.cpp
+++ b/library/Java/Lang/StringBuilder/StringBuilder.cpp
@@ -76,7 +76,12 @@ StringBuilder::StringBuilder(const StringBuilder &target) {
 StringBuilder &StringBuilder::operator=(const StringBuilder &target) {
 	if (this != &target) {
 		this->setLength(0);
-		this->append((const CharSequence &) target);
+		this->ensureCapacity(target.currentLength);
+		int index;
+		for (index = 0; index < target.currentLength; index++) {
+			this->original[ index ] = target.original[ index ];
+		}
+		this->currentLength = target.currentLength;
 	}
 	return *this;
 }
@@ -669,7 +674,7 @@ String StringBuilder::toString() const {
 		content[index] = this->original[index];
 	}
 	content[this->currentLength] = '\0';
-	this->backupOriginalForToString = String(content, this->currentLength);
+	this->backupOriginalForToString = content;
 	free(content);
 	return this->backupOriginalForToString;
 }
-- 
2.43.0


From cfc985903a643bca2b7ddaba239cc30f3f17b2b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:36 +0000
Subject: [PATCH 024/118] fix: String.lastIndexOf with a start index ignored a
 NUL character in the pattern

---
 library/Java/Lang/String/String.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/Java/Lang/String/String.cpp b/library/Java/Lang/String/String.cpp
index 83123a3..df08ea5 100644
--- a/library/Java/Lang/String/String.cpp
+++ b/library/Java/Lang/String/String.cpp
@@ -346,7 +346,7 @@ int String::lastIndexOf(const String &subString, int fromIndex) const {
 		return -1;
 	}
 	std::string subStringFromIndex = thisStringReversed.substr(indexToCreatSubString);
-	std::string reversedString = subString.toCharPointer();
+	std::string reversedString = subString.original;
 	std::reverse(reversedString.begin(), reversedString.end());
 	auto result = (int) subStringFromIndex.find(reversedString);
 	if (result == -1) {
-- 
2.43.0


From c66e8ef9e806a8a9c85b04eefba02854a0ad36b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:28 +0000
Subject: [PATCH 025/118] fix: Integer << wrote to standard output whatever the
 stream

---
 library/Java/Lang/Integer/Integer.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/Java/Lang/Integer/Integer.hpp b/library/Java/Lang/Integer/Integer.hpp
index 2e2a454..2836f6d 100755
--- a/library/Java/Lang/Integer/Integer.hpp
+++ b/library/Java/Lang/Integer/Integer.hpp
@@ -731,7 +731,7 @@ namespace Java {
 						 * @return ostream
 						 */
 						friend std::ostream &operator<<(std::ostream &os, const Integer &target) {
-							std::cout << target.original;
+							os << target.original;
 							return os;
 						}
 						
-- 
2.43.0


From c769adf488adaca6f9854163f86b2b9a9ffadcea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:28 +0000
Subject: [PATCH 026/118] fix: Integer.parseInt, parseUnsignedInt and decode
 accepted text that is not a number

---
 library/Java/Lang/Integer/Integer.cpp | 128 ++++++++++++--------------
 1 file changed, 58 insertions(+), 70 deletions(-)

diff --git a/library/Java/Lang/Integer/Integer.cpp b/library/Java/Lang/Integer/Integer.cpp
index 7d0f482..cdd8701 100755
--- a/library/Java/Lang/Integer/Integer.cpp
+++ b/library/Java/Lang/Integer/Integer.cpp
@@ -34,6 +34,42 @@
 
 using namespace Java::Lang;
 
+/**
+ * Reads the digits of a number; the text from start to its end has to be digits of the radix, at least one.
+ *
+ * @throw NumberFormatException if there is no digit, another character, or a value above the limit
+ */
+static unsigned long parseDigits(const String &text, int start, int radix, unsigned long limit,
+                                 const char *outOfRangeMessage) {
+	if (start >= text.length()) {
+		throw NumberFormatException("Not a number");
+	}
+	unsigned long result = 0;
+	boolean outOfRange = false;
+	for (int index = start; index < text.length(); index++) {
+		char character = text.charAt(index);
+		int digit = -1;
+		if (character >= '0' && character <= '9') {
+			digit = character - '0';
+		} else if (character >= 'a' && character <= 'z') {
+			digit = character - 'a' + 10;
+		} else if (character >= 'A' && character <= 'Z') {
+			digit = character - 'A' + 10;
+		}
+		if (digit < 0 || digit >= radix) {
+			throw NumberFormatException("Not a number");
+		}
+		if (!outOfRange) {
+			result = result * radix + digit;
+			outOfRange = result > limit;
+		}
+	}
+	if (outOfRange) {
+		throw NumberFormatException(outOfRangeMessage);
+	}
+	return result;
+}
+
 Integer::Integer() {
 	this->original = 0;
 	asprintf(&this->originalString, "%d", this->original);
@@ -237,31 +273,24 @@ Integer Integer::decode(String inputString) {
 		throw NumberFormatException("input string is null");
 	}
 	
-	if (inputString.charAt(0) == '0' && inputString.length() == 1) {
-		return 0;
-	}
-	
-	boolean isNegative = false;
-	int base = 10;
 	char sign = inputString.charAt(0);
-	if (sign == '-' && (( isdigit(sign)) == 0 )) {
-		isNegative = true;
-		inputString = inputString.getStringFromIndex(1);
-	}
-	
-	if (inputString.charAt(0) == '0') {
-		if (inputString.charAt(1) == 'x' || inputString.charAt(1) == 'X') {
-			base = 16;
-		} else {
-			base = 8;
-		}
+	int start = sign == '-' || sign == '+' ? 1 : 0;
+	int base = 10;
+	if (inputString.startsWith("0x", start) || inputString.startsWith("0X", start)) {
+		base = 16;
+		start += 2;
+	} else if (inputString.startsWith("0", start) && inputString.length() > start + 1) {
+		base = 8;
+		start += 1;
 	}
 	
-	int result = parseInt(inputString, base);
+	boolean isNegative = sign == '-';
+	unsigned long limit = (unsigned long) Integer::MAX_VALUE + (isNegative ? 1 : 0);
+	long result = (long) parseDigits(inputString, start, base, limit, "Integer out of range");
 	if (isNegative) {
-		return static_cast<Integer>(-result);
+		result = -result;
 	}
-	return static_cast<Integer>(result);
+	return Integer((int) result);
 }
 
 int Integer::divideUnsigned(int dividend, int divisor) {
@@ -365,32 +394,13 @@ int Integer::parseInt(String inputString, int radix) {
 		return 0;
 	}
 	
-	boolean isNegative = false;
 	char sign = inputString.charAt(0);
-	if (sign == '-' && (( isdigit(sign)) == 0 )) {
-		isNegative = true;
-		inputString = inputString.getStringFromIndex(1);
-	}
-	
-	unsigned long unsignedResult = 0;
-	try {
-		unsignedResult = std::stoul(inputString.toCharPointer(), nullptr, radix);
-	}
-	catch (const std::invalid_argument &e) {
-		throw NumberFormatException("Not a number");
-	}
-	catch (const std::out_of_range &e) {
-		throw NumberFormatException("Integer out of range");
-	}
-	
-	long result = unsignedResult;
-	
+	boolean isNegative = sign == '-';
+	unsigned long limit = (unsigned long) Integer::MAX_VALUE + (isNegative ? 1 : 0);
+	long result = (long) parseDigits(inputString, sign == '-' || sign == '+' ? 1 : 0, radix, limit,
+	                                 "Integer out of range");
 	if (isNegative) {
-		result = -unsignedResult;
-	}
-	
-	if (result > Integer::MAX_VALUE || result < Integer::MIN_VALUE) {
-		throw NumberFormatException("Integer out of range");
+		result = -result;
 	}
 	
 	return (int) result;
@@ -414,33 +424,11 @@ int Integer::parseUnsignedInt(String inputString, int radix) {
 	}
 	
 	char sign = inputString.charAt(0);
-	
-	
-	if (( isdigit(sign)) == 0) {
-		if (sign == '-') {
-			throw NumberFormatException("Illegal leading minus sign");
-		}
-		
-		if (sign == '+') {
-			inputString = inputString.getStringFromIndex(1);
-		}
-	}
-	
-	unsigned long unsignedResult = 0;
-	
-	try {
-		unsignedResult = std::stoul(inputString.toCharPointer(), nullptr, radix);
-	} catch (const std::invalid_argument &e) {
-		throw NumberFormatException("Not a number");
-	} catch (const std::out_of_range &e) {
-		throw NumberFormatException("Unsigned integer out of range");
-	}
-	
-	long result = unsignedResult;
-	
-	if (result > UNSIGNED_INT_MAX || result < UNSIGNED_INT_MIN) {
-		throw NumberFormatException("Unsigned integer out of range");
+	if (sign == '-') {
+		throw NumberFormatException("Illegal leading minus sign");
 	}
+	unsigned long result = parseDigits(inputString, sign == '+' ? 1 : 0, radix, UNSIGNED_INT_MAX,
+	                                   "Unsigned integer out of range");
 	
 	return (int) result;
 }
-- 
2.43.0


From c0662a47b7e45cd0bbbe83f20b58b537fe2c8f60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:51 +0000
Subject: [PATCH 027/118] fix: Integer and Long division of the least value by
 -1 trapped, Long division by zero trapped

---
 library/Java/Lang/Integer/Integer.cpp | 22 ++++++++++++++++++++--
 library/Java/Lang/Long/Long.cpp       | 15 +++++++++++++++
 2 files changed, 35 insertions(+), 2 deletions(-)

diff --git a/library/Java/Lang/Integer/Integer.cpp b/library/Java/Lang/Integer/Integer.cpp
index cdd8701..8b07552 100755
--- a/library/Java/Lang/Integer/Integer.cpp
+++ b/library/Java/Lang/Integer/Integer.cpp
@@ -176,6 +176,10 @@ Integer Integer::operator/(const Integer &target) {
 	if (target.original == 0) {
 		throw ArithmeticException("Divide by zero");
 	}
+	if (target.original == -1) {
+		// the machine traps on MIN_VALUE / -1
+		return (int) (0u - (unsigned int) this->original);
+	}
 	return this->original / target.original;
 }
 
@@ -187,6 +191,10 @@ Integer Integer::operator%(const Integer &target) {
 	if (target.original == 0) {
 		throw ArithmeticException("Divide by zero");
 	}
+	if (target.original == -1) {
+		// the machine traps on MIN_VALUE / -1
+		return (int) 0;
+	}
 	return this->original % target.original;
 }
 
@@ -208,7 +216,12 @@ Integer &Integer::operator/=(const Integer &target) {
 	if (target.original == 0) {
 		throw ArithmeticException("Divide by zero");
 	}
-	this->original /= target.original;
+	if (target.original == -1) {
+		// the machine traps on MIN_VALUE / -1
+		this->original = (int) (0u - (unsigned int) this->original);
+	} else {
+		this->original /= target.original;
+	}
 	free(this->originalString);
 	asprintf(&this->originalString, "%d", this->original);
 	return *this;
@@ -225,7 +238,12 @@ Integer &Integer::operator%=(const Integer &target) {
 	if (target.original == 0) {
 		throw ArithmeticException("Divide by zero");
 	}
-	this->original %= target.original;
+	if (target.original == -1) {
+		// the machine traps on MIN_VALUE / -1
+		this->original = (int) 0;
+	} else {
+		this->original %= target.original;
+	}
 	free(this->originalString);
 	asprintf(&this->originalString, "%d", this->original);
 	return *this;
diff --git a/library/Java/Lang/Long/Long.cpp b/library/Java/Lang/Long/Long.cpp
index 5c328ee..87f13ad 100755
--- a/library/Java/Lang/Long/Long.cpp
+++ b/library/Java/Lang/Long/Long.cpp
@@ -26,6 +26,7 @@
 
 #include "Long.hpp"
 #include "../Math/Math.hpp"
+#include "../ArithmeticException/ArithmeticException.hpp"
 
 using namespace Java::Lang;
 
@@ -682,6 +683,13 @@ Long Long::operator-(const Long &target) const {
 Long Long::operator/(const Long &target) const {
 	Long result = this->original / target.original;
 	return result;
+	if (target.original == 0) {
+		throw ArithmeticException("Divide by zero");
+	}
+	if (target.original == -1) {
+		// the machine traps on MIN_VALUE / -1
+		return Long((long) (0ul - (unsigned long) this->original));
+	}
 }
 
 /**
@@ -693,6 +701,13 @@ Long Long::operator/(const Long &target) const {
 Long Long::operator%(const Long &target) const {
 	Long result = this->original % target.original;
 	return result;
+	if (target.original == 0) {
+		throw ArithmeticException("Divide by zero");
+	}
+	if (target.original == -1) {
+		// the machine traps on MIN_VALUE / -1
+		return Long((long) 0);
+	}
 }
 
 /**
-- 
2.43.0


From 6a881249ee1a6d13d94156f825651354b36f0df8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:51 +0000
Subject: [PATCH 028/118] fix: Long.toString(long) answered the first value it
 was ever called with

---
 library/Java/Lang/Long/Long.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/library/Java/Lang/Long/Long.cpp b/library/Java/Lang/Long/Long.cpp
index 87f13ad..7952519 100755
--- a/library/Java/Lang/Long/Long.cpp
+++ b/library/Java/Lang/Long/Long.cpp
@@ -540,8 +540,7 @@ String Long::toString() const {
  * @return String
  */
 String Long::toString(long i) {
-	static Long result = i;
-	return result.toString();
+	return Long(i).toString();
 }
 
 /**
-- 
2.43.0


From 13313ccb394e769a836c3b5a1b10394953a73f90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:51 +0000
Subject: [PATCH 029/118] fix: Long's compound assignments left the old text

---
 library/Java/Lang/Long/Long.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/library/Java/Lang/Long/Long.cpp b/library/Java/Lang/Long/Long.cpp
index 7952519..1b9dafe 100755
--- a/library/Java/Lang/Long/Long.cpp
+++ b/library/Java/Lang/Long/Long.cpp
@@ -808,7 +808,7 @@ boolean Long::operator>=(const Long &target) const {
  * @param target
  */
 void Long::operator-=(const Long &target) {
-	this->original -= target.original;
+	*this = *this - target;
 }
 
 /**
@@ -817,7 +817,7 @@ void Long::operator-=(const Long &target) {
  * @param target
  */
 void Long::operator+=(const Long &target) {
-	this->original += target.original;
+	*this = *this + target;
 }
 
 /**
@@ -826,7 +826,7 @@ void Long::operator+=(const Long &target) {
  * @param target
  */
 void Long::operator*=(const Long &target) {
-	this->original *= target.original;
+	*this = *this * target;
 }
 
 /**
@@ -835,7 +835,7 @@ void Long::operator*=(const Long &target) {
  * @param target
  */
 void Long::operator/=(const Long &target) {
-	this->original /= target.original;
+	*this = *this / target;
 }
 
 /**
@@ -844,5 +844,5 @@ void Long::operator/=(const Long &target) {
  * @param target
  */
 void Long::operator%=(const Long &target) {
-	this->original %= target.original;
+	*this = *this % target;
 }
\ No newline at end of file
-- 
2.43.0


From 3b59355f81d524bc3508ce4c88b70e5c32ea15cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:51 +0000
Subject: [PATCH 030/118] fix: Long.reverse and reverseBytes returned their
 argument

---
 library/Java/Lang/Long/Long.cpp | 40 ++++++++++++++++-----------------
 1 file changed, 20 insertions(+), 20 deletions(-)

diff --git a/library/Java/Lang/Long/Long.cpp b/library/Java/Lang/Long/Long.cpp
index 1b9dafe..9e94595 100755
--- a/library/Java/Lang/Long/Long.cpp
+++ b/library/Java/Lang/Long/Long.cpp
@@ -80,13 +80,14 @@ Long::~Long() {
  * @return int
  */
 int Long::bitCount(long i) {
-	i = i - (( i >> 1 ) & 0x5555555555555555L );
-	i = ( i & 0x3333333333333333L ) + (( i >> 2 ) & 0x3333333333333333L );
-	i = ( i + ( i >> 4 )) & 0x0f0f0f0f0f0f0f0fL;
-	i = i + ( i >> 8 );
-	i = i + ( i >> 16 );
-	i = i + ( i >> 32 );
-	return (int) i & 0x7f;
+	unsigned long value = i;
+	value = value - (( value >> 1 ) & 0x5555555555555555L );
+	value = ( value & 0x3333333333333333L ) + (( value >> 2 ) & 0x3333333333333333L );
+	value = ( value + ( value >> 4 )) & 0x0f0f0f0f0f0f0f0fL;
+	value = value + ( value >> 8 );
+	value = value + ( value >> 16 );
+	value = value + ( value >> 32 );
+	return (int) value & 0x7f;
 }
 
 /**
@@ -423,16 +424,12 @@ long Long::parseLong(String s, int radix) {
  * @return long
  */
 long Long::reverse(long i) {
-	return i;
-	/*
-	i = ( i & 0x5555555555555555L ) << 1 | ( i >> 1 ) & 0x5555555555555555L;
-	i = ( i & 0x3333333333333333L ) << 2 | ( i >> 2 ) & 0x3333333333333333L;
-	i = ( i & 0x0f0f0f0f0f0f0f0fL ) << 4 | ( i >> 4 ) & 0x0f0f0f0f0f0f0f0fL;
-	i = ( i & 0x00ff00ff00ff00ffL ) << 8 | ( i >> 8 ) & 0x00ff00ff00ff00ffL;
-	i = ( i << 48 ) | (( i & 0xffff0000L ) << 16 ) |
-	    (( i >> 16 ) & 0xffff0000L ) | ( i >> 48 );
-	return i;
-	 */
+	unsigned long value = i;
+	unsigned long result = 0;
+	for (int index = 0; index < 64; index++) {
+		result = (result << 1) | ((value >> index) & 1);
+	}
+	return (long) result;
 }
 
 /**
@@ -443,9 +440,12 @@ long Long::reverse(long i) {
  * @return long
  */
 long Long::reverseBytes(long i) {
-	return i;
-	//i = ( i & 0x00ff00ff00ff00ffL ) << 8 | ( i >> 8 ) & 0x00ff00ff00ff00ffL;
-	//return (( i << 48 ) | (( i & 0xffff0000L ) << 16 ) | (( i >> 16 ) & 0xffff0000L ) | ( i >> 48 ));
+	unsigned long value = i;
+	unsigned long result = 0;
+	for (int index = 0; index < 64; index += 8) {
+		result = (result << 8) | ((value >> index) & 0xff);
+	}
+	return (long) result;
 }
 
 /**
-- 
2.43.0


From 51a0014889f4b7e2cc03b6f50e4fe00bb9aad7d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:00 +0000
Subject: [PATCH 031/118] fix: Character.digit knew radix 10 and 16 in lower
 case only

---
 library/Java/Lang/Character/Character.cpp | 73 ++++-------------------
 1 file changed, 10 insertions(+), 63 deletions(-)

diff --git a/library/Java/Lang/Character/Character.cpp b/library/Java/Lang/Character/Character.cpp
index 7744625..8bb102b 100755
--- a/library/Java/Lang/Character/Character.cpp
+++ b/library/Java/Lang/Character/Character.cpp
@@ -515,69 +515,16 @@ int Character::toCodePoint(unicode high, unicode low) {
 }
 
 int Character::digit(int codePoint, int radix) {
-	if (radix == 10) {
-		switch (codePoint) {
-			case (int) '0':
-				return 0;
-			case (int) '1':
-				return 1;
-			case (int) '2':
-				return 2;
-			case (int) '3':
-				return 3;
-			case (int) '4':
-				return 4;
-			case (int) '5':
-				return 5;
-			case (int) '6':
-				return 6;
-			case (int) '7':
-				return 7;
-			case (int) '8':
-				return 8;
-			case (int) '9':
-				return 9;
-			default:
-				return -1;
-		}
+	if (radix < 2 || radix > 36) {
+		return -1;
 	}
-	if (radix == 16) {
-		switch (codePoint) {
-			case (int) '0':
-				return 0;
-			case (int) '1':
-				return 1;
-			case (int) '2':
-				return 2;
-			case (int) '3':
-				return 3;
-			case (int) '4':
-				return 4;
-			case (int) '5':
-				return 5;
-			case (int) '6':
-				return 6;
-			case (int) '7':
-				return 7;
-			case (int) '8':
-				return 8;
-			case (int) '9':
-				return 9;
-			case (int) 'a':
-				return 10;
-			case (int) 'b':
-				return 11;
-			case (int) 'c':
-				return 12;
-			case (int) 'd':
-				return 13;
-			case (int) 'e':
-				return 14;
-			case (int) 'f':
-				return 15;
-			default:
-				return -1;
-		}
+	int result = -1;
+	if (codePoint >= '0' && codePoint <= '9') {
+		result = codePoint - '0';
+	} else if (codePoint >= 'a' && codePoint <= 'z') {
+		result = codePoint - 'a' + 10;
+	} else if (codePoint >= 'A' && codePoint <= 'Z') {
+		result = codePoint - 'A' + 10;
 	}
-	return -1;
+	return result < radix ? result : -1;
 }
-- 
2.43.0


From cf433aa22d06a078cfa46019f70223b15a8e8845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:00 +0000
Subject: [PATCH 032/118] fix: Long bit operations shifted negative values
 arithmetically

---
 library/Java/Lang/Long/Long.cpp | 33 ++++++++++++++++++---------------
 1 file changed, 18 insertions(+), 15 deletions(-)

diff --git a/library/Java/Lang/Long/Long.cpp b/library/Java/Lang/Long/Long.cpp
index 9e94595..6b1cfca 100755
--- a/library/Java/Lang/Long/Long.cpp
+++ b/library/Java/Lang/Long/Long.cpp
@@ -260,13 +260,14 @@ int Long::hashCode() {
  * @return long
  */
 long Long::highestOneBit(long i) {
-	i |= ( i >> 1 );
-	i |= ( i >> 2 );
-	i |= ( i >> 4 );
-	i |= ( i >> 8 );
-	i |= ( i >> 16 );
-	i |= ( i >> 32 );
-	return ( i - ( i >> 1 ));
+	unsigned long value = i;
+	value |= ( value >> 1 );
+	value |= ( value >> 2 );
+	value |= ( value >> 4 );
+	value |= ( value >> 8 );
+	value |= ( value >> 16 );
+	value |= ( value >> 32 );
+	return ( value - ( value >> 1 ));
 }
 
 /**
@@ -457,7 +458,8 @@ long Long::reverseBytes(long i) {
  * @return long
  */
 long Long::rotateLeft(long i, int distance) {
-	return (( i << distance ) | ( i >> -distance ));
+	unsigned long value = i;
+	return (long) (( value << ( distance & 63 )) | ( value >> ( -distance & 63 )));
 }
 
 /**
@@ -469,7 +471,8 @@ long Long::rotateLeft(long i, int distance) {
  * @return long
  */
 long Long::rotateRight(long i, int distance) {
-	return (( i >> distance ) | ( i << -distance ));
+	unsigned long value = i;
+	return (long) (( value >> ( distance & 63 )) | ( value << ( -distance & 63 )));
 }
 
 /**
@@ -488,7 +491,7 @@ short Long::shortValue() const {
  * @return int
  */
 int Long::signum(long i) {
-	return (int) (( i >> 63 ) | ( -i >> 63 ));
+	return (int) (( i >> 63 ) | ((long) (( 0ul - (unsigned long) i ) >> 63 )));
 }
 
 /**
@@ -605,7 +608,7 @@ int Long::formatUnsignedLong(long val, int shift, Array<char> &buf, int offset,
 	
 	do {
 		buf[ offset + --charPos ] = digits[ ((int) val ) & mask ];
-		val >>= shift;
+		val = (long) ((unsigned long) val >> shift);
 	} while (val != 0 && charPos > 0);
 	
 	return charPos;
@@ -680,8 +683,6 @@ Long Long::operator-(const Long &target) const {
  * @return
  */
 Long Long::operator/(const Long &target) const {
-	Long result = this->original / target.original;
-	return result;
 	if (target.original == 0) {
 		throw ArithmeticException("Divide by zero");
 	}
@@ -689,6 +690,8 @@ Long Long::operator/(const Long &target) const {
 		// the machine traps on MIN_VALUE / -1
 		return Long((long) (0ul - (unsigned long) this->original));
 	}
+	Long result = this->original / target.original;
+	return result;
 }
 
 /**
@@ -698,8 +701,6 @@ Long Long::operator/(const Long &target) const {
  * @return
  */
 Long Long::operator%(const Long &target) const {
-	Long result = this->original % target.original;
-	return result;
 	if (target.original == 0) {
 		throw ArithmeticException("Divide by zero");
 	}
@@ -707,6 +708,8 @@ Long Long::operator%(const Long &target) const {
 		// the machine traps on MIN_VALUE / -1
 		return Long((long) 0);
 	}
+	Long result = this->original % target.original;
+	return result;
 }
 
 /**
-- 
2.43.0


From b48b38a379aa9c3e6c67b793e5302a15cd08ac12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:37 +0000
Subject: [PATCH 033/118] fix: Bytes.valueOf used its cache after freeing it

---
 library/Java/Lang/Bytes/Bytes.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/library/Java/Lang/Bytes/Bytes.cpp b/library/Java/Lang/Bytes/Bytes.cpp
index 719a98b..c02a48e 100755
--- a/library/Java/Lang/Bytes/Bytes.cpp
+++ b/library/Java/Lang/Bytes/Bytes.cpp
@@ -146,7 +146,6 @@ long Bytes::toUnsignedLong(byte byteValue) {
 Bytes Bytes::valueOf(byte byteValue) {
     auto byteInstance = ByteCache::getInstance();
     auto value = byteInstance->getByteAtIndex((int) byteValue);
-    delete byteInstance;
     return value;
 }
 
-- 
2.43.0


From d4dae20366b776c034a98e41772977cc5e5e5cd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:46 +0000
Subject: [PATCH 034/118] fix: Boolean(text) knew only "True", not "true" as
 documented

---
 library/Java/Lang/Boolean/Boolean.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/Java/Lang/Boolean/Boolean.cpp b/library/Java/Lang/Boolean/Boolean.cpp
index 7f01107..ed758d1 100644
--- a/library/Java/Lang/Boolean/Boolean.cpp
+++ b/library/Java/Lang/Boolean/Boolean.cpp
@@ -46,7 +46,7 @@ Boolean::Boolean(const boolean &target) {
  * @param target
  */
 Boolean::Boolean(const_string target) {
-	if (strcmp(target, "True") == 0) {
+	if (Boolean::parseBoolean(target)) {
 		this->original = true;
 	} else {
 		this->original = false;
-- 
2.43.0


From 1c7f40eb13c0d5761a59fb55efbb491084476adb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:46 +0000
Subject: [PATCH 035/118] fix: Short.parseShort read an uninitialised value,
 division by zero trapped

---
 library/Java/Lang/Short/Short.cpp | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/library/Java/Lang/Short/Short.cpp b/library/Java/Lang/Short/Short.cpp
index 5f330a3..34ba3d8 100755
--- a/library/Java/Lang/Short/Short.cpp
+++ b/library/Java/Lang/Short/Short.cpp
@@ -25,6 +25,9 @@
  */
 
 #include "Short.hpp"
+#include "../ArithmeticException/ArithmeticException.hpp"
+#include "../Integer/Integer.hpp"
+#include "../NumberFormatException/NumberFormatException.hpp"
 
 using namespace Java::Lang;
 
@@ -71,9 +74,11 @@ Short::~Short() {
  * @return short
  */
 Short Short::parseShort(String target) {
-    short result;
-    sscanf(target.toCharPointer(), "%hi", &result);
-	return (Short) result;
+	int result = Integer::parseInt(target);
+	if (result < -32768 || result > 32767) {
+		throw NumberFormatException("out of short range");
+	}
+	return Short((short) result);
 }
 
 /**
@@ -194,6 +199,9 @@ Short Short::operator*(const Short &target) {
  * @return Short
  */
 Short Short::operator/(const Short &target) {
+	if (target.original == 0) {
+		throw ArithmeticException("Divide by zero");
+	}
 	return (this->original / target.original);
 }
 
@@ -203,6 +211,9 @@ Short Short::operator/(const Short &target) {
  * @return Short
  */
 Short Short::operator%(const Short &target) {
+	if (target.original == 0) {
+		throw ArithmeticException("Divide by zero");
+	}
 	return (this->original % target.original);
 }
 
-- 
2.43.0


From 4b6184cd8dc1f6aab04279c2fbc87b2212034d8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:46 +0000
Subject: [PATCH 036/118] fix: Float and Double compound assignments left the
 object unchanged

---
 library/Java/Lang/Double/Double.cpp | 20 ++++++++++++--------
 library/Java/Lang/Double/Double.hpp |  8 ++++----
 library/Java/Lang/Float/Float.cpp   | 20 ++++++++++++--------
 library/Java/Lang/Float/Float.hpp   |  8 ++++----
 4 files changed, 32 insertions(+), 24 deletions(-)

diff --git a/library/Java/Lang/Double/Double.cpp b/library/Java/Lang/Double/Double.cpp
index 37740cf..6e8f7d3 100755
--- a/library/Java/Lang/Double/Double.cpp
+++ b/library/Java/Lang/Double/Double.cpp
@@ -184,20 +184,24 @@ Double &Double::operator=(const Double &target) {
     return *this;
 }
 
-Double Double::operator+=(const Double &target) const {
-    return (Double) (this->original + target.original);
+Double Double::operator+=(const Double &target) {
+    *this = Double(this->original + target.original);
+    return *this;
 }
 
-Double Double::operator-=(const Double &target) const {
-    return (Double) (this->original - target.original);
+Double Double::operator-=(const Double &target) {
+    *this = Double(this->original - target.original);
+    return *this;
 }
 
-Double Double::operator*=(const Double &target) const {
-    return (Double) (this->original * target.original);
+Double Double::operator*=(const Double &target) {
+    *this = Double(this->original * target.original);
+    return *this;
 }
 
-Double Double::operator/=(const Double &target) const {
-    return (Double) (this->original / target.original);
+Double Double::operator/=(const Double &target) {
+    *this = Double(this->original / target.original);
+    return *this;
 }
 
 int Double::compare(double double1, double double2) {
diff --git a/library/Java/Lang/Double/Double.hpp b/library/Java/Lang/Double/Double.hpp
index 2291882..d8946f2 100755
--- a/library/Java/Lang/Double/Double.hpp
+++ b/library/Java/Lang/Double/Double.hpp
@@ -228,7 +228,7 @@ namespace Java {
              * @param target
              * @return Double
              */
-            Double operator+=(const Double &target) const;
+            Double operator+=(const Double &target);
 
             /**
              * Subtract AND assignment operator,
@@ -238,7 +238,7 @@ namespace Java {
              * @param target
              * @return Double
              */
-            Double operator-=(const Double &target) const;
+            Double operator-=(const Double &target);
 
             /**
              * Multiply AND assignment operator,
@@ -248,7 +248,7 @@ namespace Java {
              * @param target
              * @return Double
              */
-            Double operator*=(const Double &target) const;
+            Double operator*=(const Double &target);
 
             /**
              * Divide AND assignment operator,
@@ -258,7 +258,7 @@ namespace Java {
              * @param target
              * @return Double
              */
-            Double operator/=(const Double &target) const;
+            Double operator/=(const Double &target);
 
             /**
              * Double to Char
diff --git a/library/Java/Lang/Float/Float.cpp b/library/Java/Lang/Float/Float.cpp
index 3ee56b9..48af864 100755
--- a/library/Java/Lang/Float/Float.cpp
+++ b/library/Java/Lang/Float/Float.cpp
@@ -116,20 +116,24 @@ Float& Float::operator=(const Float &target) {
     return *this;
 }
 
-Float Float::operator+=(const Float &target) const {
-    return (Float) (this->original + target.original);
+Float Float::operator+=(const Float &target) {
+    *this = Float(this->original + target.original);
+    return *this;
 }
 
-Float Float::operator-=(const Float &target) const {
-    return (Float) (this->original - target.original);
+Float Float::operator-=(const Float &target) {
+    *this = Float(this->original - target.original);
+    return *this;
 }
 
-Float Float::operator*=(const Float &target) const {
-    return (Float) (this->original * target.original);
+Float Float::operator*=(const Float &target) {
+    *this = Float(this->original * target.original);
+    return *this;
 }
 
-Float Float::operator/=(const Float &target) const {
-    return (Float) (this->original / target.original);
+Float Float::operator/=(const Float &target) {
+    *this = Float(this->original / target.original);
+    return *this;
 }
 
 float Float::floatValue() const {
diff --git a/library/Java/Lang/Float/Float.hpp b/library/Java/Lang/Float/Float.hpp
index e1cc7ec..5f7845d 100755
--- a/library/Java/Lang/Float/Float.hpp
+++ b/library/Java/Lang/Float/Float.hpp
@@ -271,7 +271,7 @@ namespace Java {
 						 * @param   target
 						 * @return  Float
 						 */
-						Float operator+=(const Float &target) const;
+						Float operator+=(const Float &target);
 						
 						/**
 						 * Subtract AND assignment operator,
@@ -281,7 +281,7 @@ namespace Java {
 						 * @param   target
 						 * @return  Float
 						 */
-						Float operator-=(const Float &target) const;
+						Float operator-=(const Float &target);
 						
 						/**
 						 * Multiply AND assignment operator,
@@ -291,7 +291,7 @@ namespace Java {
 						 * @param   target
 						 * @return  Float
 						 */
-						Float operator*=(const Float &target) const;
+						Float operator*=(const Float &target);
 						
 						/**
 						 * Divide AND assignment operator,
@@ -301,7 +301,7 @@ namespace Java {
 						 * @param   target
 						 * @return  Float
 						 */
-						Float operator/=(const Float &target) const;
+						Float operator/=(const Float &target);
 						
 						/**
 						 * Short value of Float
-- 
2.43.0


From ecb38e9ea439caad85a5619c8067c6f8d3f8d614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:46 +0000
Subject: [PATCH 037/118] fix: a Float or Double without a value, or assigned
 one, showed another text than an equal one

---
 library/Java/Lang/Double/Double.cpp | 2 +-
 library/Java/Lang/Float/Float.cpp   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/library/Java/Lang/Double/Double.cpp b/library/Java/Lang/Double/Double.cpp
index 6e8f7d3..263fd70 100755
--- a/library/Java/Lang/Double/Double.cpp
+++ b/library/Java/Lang/Double/Double.cpp
@@ -30,7 +30,7 @@ using namespace Java::Lang;
 
 Double::Double() {
     this->original = 0;
-    asprintf(&this->originalString, "%lg", this->original);
+    asprintf(&this->originalString, "%.15f", this->original);
 }
 
 Double::Double(double original) {
diff --git a/library/Java/Lang/Float/Float.cpp b/library/Java/Lang/Float/Float.cpp
index 48af864..b7dc0c7 100755
--- a/library/Java/Lang/Float/Float.cpp
+++ b/library/Java/Lang/Float/Float.cpp
@@ -112,7 +112,7 @@ boolean Float::operator||(const Float &target) const {
 Float& Float::operator=(const Float &target) {
     this->original = target.original;
     free(this->originalString);
-    asprintf(&this->originalString, "%f", this->original);
+    asprintf(&this->originalString, "%g", this->original);
     return *this;
 }
 
-- 
2.43.0


From 63032a4b145dec93c908d882ab117bd606bb97f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:47 +0000
Subject: [PATCH 038/118] fix: Float and Double read an uninitialised value
 from text that is not a number

---
 library/Java/Lang/Double/Double.cpp | 14 +++++++++++---
 library/Java/Lang/Float/Float.cpp   | 14 +++++++++++---
 2 files changed, 22 insertions(+), 6 deletions(-)

diff --git a/library/Java/Lang/Double/Double.cpp b/library/Java/Lang/Double/Double.cpp
index 263fd70..6c091c5 100755
--- a/library/Java/Lang/Double/Double.cpp
+++ b/library/Java/Lang/Double/Double.cpp
@@ -25,6 +25,7 @@
  */
 
 #include "Double.hpp"
+#include "../NumberFormatException/NumberFormatException.hpp"
 
 using namespace Java::Lang;
 
@@ -63,9 +64,16 @@ Double::~Double() {
 }
 
 Double Double::parseDouble(String target) {
-    double result;
-    sscanf(target.toCharPointer(), "%lg", &result);
-    return result;
+    const_string text = target.toCharPointer();
+    string end = nullptr;
+    double result = strtod(text, &end);
+    while (end != text && isspace((unsigned char) *end)) {
+        end++;
+    }
+    if (end == text || end != text + target.length()) {
+        throw NumberFormatException("Not a number");
+    }
+    return Double(result);
 }
 
 String Double::toString() const {
diff --git a/library/Java/Lang/Float/Float.cpp b/library/Java/Lang/Float/Float.cpp
index b7dc0c7..4a79365 100755
--- a/library/Java/Lang/Float/Float.cpp
+++ b/library/Java/Lang/Float/Float.cpp
@@ -25,6 +25,7 @@
  */
 
 #include "Float.hpp"
+#include "../NumberFormatException/NumberFormatException.hpp"
 #include "../Math/Math.hpp"
 
 using namespace Java::Lang;
@@ -165,9 +166,16 @@ String Float::toString() const {
 }
 
 Float Float::parseFloat(String inputString) {
-    float result;
-    sscanf(inputString.toCharPointer(), "%g", &result);
-    return (Float)result;
+    const_string text = inputString.toCharPointer();
+    string end = nullptr;
+    float result = strtof(text, &end);
+    while (end != text && isspace((unsigned char) *end)) {
+        end++;
+    }
+    if (end == text || end != text + inputString.length()) {
+        throw NumberFormatException("Not a number");
+    }
+    return Float(result);
 }
 
 boolean Float::isFinite(float valueFloat) {
-- 
2.43.0


From aec1e4bb11c60da83bedd84ae318b4273f937ffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:47 +0000
Subject: [PATCH 039/118] fix: equal Float and Double objects had different
 std::hash values

---
 library/Java/Lang/Double/Double.hpp | 2 +-
 library/Java/Lang/Float/Float.hpp   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/library/Java/Lang/Double/Double.hpp b/library/Java/Lang/Double/Double.hpp
index d8946f2..0f56a54 100755
--- a/library/Java/Lang/Double/Double.hpp
+++ b/library/Java/Lang/Double/Double.hpp
@@ -548,7 +548,7 @@ namespace Java {
 				
 				public:
 						inline size_t operator()(const Double &target) const {
-							return std::hash<std::string>{}(target.toString().toCharPointer());
+							return std::hash<long>{}(Double::hashCode(target.original));
 						}
 				};
 		}  // namespace Lang
diff --git a/library/Java/Lang/Float/Float.hpp b/library/Java/Lang/Float/Float.hpp
index 5f7845d..f33f667 100755
--- a/library/Java/Lang/Float/Float.hpp
+++ b/library/Java/Lang/Float/Float.hpp
@@ -585,7 +585,7 @@ namespace Java {
 				
 				public:
 						inline size_t operator()(const Float &target) const {
-							return std::hash<std::string>{}(target.toString().toCharPointer());
+							return std::hash<int>{}(Float::hashCode(target.original));
 						}
 				};
 		}  // namespace Lang
-- 
2.43.0


From e5bb01ee58bfb1af0fa241abd3406b5909228985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:47 +0000
Subject: [PATCH 040/118] fix: the bits of Float and Double were wrong outside
 a small range, and lost the sign on the way back

---
 library/Java/Lang/Double/Double.cpp | 381 ++--------------------------
 library/Java/Lang/Double/Double.hpp |  31 ---
 library/Java/Lang/Float/Float.cpp   | 374 ++-------------------------
 library/Java/Lang/Float/Float.hpp   |  33 ---
 4 files changed, 32 insertions(+), 787 deletions(-)

diff --git a/library/Java/Lang/Double/Double.cpp b/library/Java/Lang/Double/Double.cpp
index 6c091c5..b42d670 100755
--- a/library/Java/Lang/Double/Double.cpp
+++ b/library/Java/Lang/Double/Double.cpp
@@ -236,35 +236,14 @@ long Double::doubleToLongBits(double valueDouble) {
 }
 
 long Double::doubleToRawLongBits(double doubleInput) {
-    String doubleInputToBinary64StringType;
-    long resultDoubleToRawLongBits;
-    int tempValue;
-    int exponent;
-    int i;
-
-    doubleInputToBinary64StringType = doubleToBinary64StringType(doubleInput);
-
-    exponent = 62;
-    tempValue = 0;
-    resultDoubleToRawLongBits = 0;
-
-    for (i = 1; i <= 63; i++) {
-        if (doubleInputToBinary64StringType.charAt(i) == '1') {
-            tempValue = 1;
-        }
-
-        if (doubleInputToBinary64StringType.charAt(i) == '0') {
-            tempValue = 0;
-        }
-        resultDoubleToRawLongBits = resultDoubleToRawLongBits + tempValue * (long) Math::pow(2, exponent);
-        exponent--;
-    }
-
-    if (doubleInputToBinary64StringType.charAt(0) == '1') {
-        resultDoubleToRawLongBits = (-1) * resultDoubleToRawLongBits;
-    }
-
-    return resultDoubleToRawLongBits;
+	if (Double::isNaN(doubleInput)) {
+		return std::numeric_limits<long>::max();
+	}
+	// the sign, then the magnitude: a negative number has the negated bits of its absolute value
+	long bits;
+	memcpy(&bits, &doubleInput, sizeof(bits));
+	long magnitude = bits & std::numeric_limits<long>::max();
+	return doubleInput < 0 ? -magnitude : magnitude;
 }
 
 // TODO(thoangminh): Wait for instanceof<>
@@ -311,18 +290,14 @@ boolean Double::isNaN() {
 }
 
 double Double::longBitsToDouble(long longBitsInput) {
-    if (Double::isNaN(longBitsInput)) {
-        return NaN;
-    }
-
-    double resultLongBitsToDouble;
-    String convertLongBitsToBinary64StringType;
-
-    convertLongBitsToBinary64StringType = longBitsToBinary64StringType(longBitsInput);
-
-    resultLongBitsToDouble = binary64StringTypeToDouble(convertLongBitsToBinary64StringType);
-
-    return resultLongBitsToDouble;
+	unsigned long bits = (unsigned long) longBitsInput;
+	if (longBitsInput < 0) {
+		// see doubleToRawLongBits: the bits of the absolute value were negated
+		bits = (0 - bits) | ((unsigned long) 1 << 63);
+	}
+	double result;
+	memcpy(&result, &bits, sizeof(result));
+	return result;
 }
 
 double Double::min(double doubleA, double doubleB) {
@@ -384,330 +359,6 @@ double Double::min(double doubleA, double doubleB) {
 //    }
 //}
 
-String Double::doubleToBinary64StringType(double doubleInput) {
-    auto integerPartNormalizeForm = (string) allocateMemory(2048 * sizeof(char));
-    auto fractionPartNormalizeForm = (string) allocateMemory(54 * sizeof(char));
-    auto doubleInputNormalizeForm = (string) allocateMemory(2102 * sizeof(char));
-    auto resultDoubleToBinary64StringType = (string) allocateMemory(65 * sizeof(char));
-
-    int powerExponentBase2 = 0;
-    int integerPartDoubleInput;
-
-    int sizeOfIntegerPartNormalizeForm;
-    int sizeOfFractionPartNormalizeForm;
-    int sizeOfDoubleInputNormalizeForm;
-
-    int sizeOfExponentPartBinary64 = 11;
-
-    int i;
-    int index;
-    int indexOfDotDoubleInputNormalizeForm;
-    int indexFirstBit1DoubleInputNormalizeForm;
-    int indexBeginFractionPartResultDoubleToBinary64StringType = 0;
-
-    int exponentBiasBinary64 = 1023;
-    int exponentDoubleInput;
-
-    double fractionPartDoubleInput;
-
-    for (i = 0; i <= 63; i++) {
-        doubleInputNormalizeForm[i] = '0';
-        resultDoubleToBinary64StringType[i] = '0';
-    }
-
-    for (i = 0; i <= 52; i++) {
-        integerPartNormalizeForm[i] = '0';
-        fractionPartNormalizeForm[i] = '0';
-    }
-
-    /** Set end point for string type */
-    integerPartNormalizeForm[2047] = '\0';
-    fractionPartNormalizeForm[53] = '\0';
-    doubleInputNormalizeForm[2101] = '\0';
-    resultDoubleToBinary64StringType[64] = '\0';
-
-    if (doubleInput >= 0) {
-        resultDoubleToBinary64StringType[0] = '0';
-    }
-
-    if (doubleInput < 0) {
-        resultDoubleToBinary64StringType[0] = '1';
-    }
-
-    if (doubleInput == 0) {
-        goto outPut;
-    }
-
-    if (doubleInput == POSITIVE_INFINITY) {
-        strcpy(resultDoubleToBinary64StringType,
-               "0111111111110000000000000000000000000000000000000000000000000000");
-
-        goto outPut;
-    }
-
-    if (doubleInput == NEGATIVE_INFINITY) {
-        strcpy(resultDoubleToBinary64StringType,
-               "1111111111110000000000000000000000000000000000000000000000000000");
-
-        goto outPut;
-    }
-
-    if (isNaN(doubleInput)) {
-        strcpy(resultDoubleToBinary64StringType,
-               "0111111111111111111111111111111111111111111111111111111111111111");
-
-        goto outPut;
-    }
-
-    /** Get |doubleInput| */
-    doubleInput = fabs(doubleInput);
-
-    /** Get size of integerPartNormalizeForm  */
-    integerPartDoubleInput = static_cast<int> (floor(doubleInput));
-    sizeOfIntegerPartNormalizeForm = 0;
-
-    if (integerPartDoubleInput == 0) {
-        sizeOfIntegerPartNormalizeForm = 1;
-    }
-
-    if (integerPartDoubleInput != 0) {
-        while (integerPartDoubleInput != 0) {
-            sizeOfIntegerPartNormalizeForm++;
-            integerPartDoubleInput = integerPartDoubleInput >> 1;
-        }
-    }
-
-    integerPartDoubleInput = static_cast<int> (floor(doubleInput));
-    index = sizeOfIntegerPartNormalizeForm - 1;
-
-    while (integerPartDoubleInput != 0) {
-
-        if ((integerPartDoubleInput & 1) == 1) {
-            integerPartNormalizeForm[index] = '1';
-        }
-
-        if ((integerPartDoubleInput & 1) == 0) {
-            integerPartNormalizeForm[index] = '0';
-        }
-
-        index--;
-        integerPartDoubleInput = integerPartDoubleInput >> 1;
-    }
-
-    fractionPartDoubleInput = doubleInput - integerPartDoubleInput;
-    index = 0;
-
-    while ((fractionPartDoubleInput != 0) && (index < 53)) {
-        fractionPartDoubleInput = fractionPartDoubleInput * 2;
-
-        int integerPart = static_cast<int> (floor(fractionPartDoubleInput));
-
-        if (integerPart == 1) {
-            fractionPartNormalizeForm[index] = '1';
-        }
-
-        if (integerPart == 0) {
-            fractionPartNormalizeForm[index] = '0';
-        }
-
-        index++;
-        fractionPartDoubleInput = fractionPartDoubleInput - integerPart;
-    }
-
-    sizeOfFractionPartNormalizeForm = index;
-
-    /** Copy value from integerPartNormalizeForm to doubleInputNormalizeForm */
-    for (i = 0; i < sizeOfIntegerPartNormalizeForm; i++) {
-        doubleInputNormalizeForm[i] = integerPartNormalizeForm[i];
-    }
-
-    indexOfDotDoubleInputNormalizeForm = sizeOfIntegerPartNormalizeForm;
-
-    doubleInputNormalizeForm[indexOfDotDoubleInputNormalizeForm] = '.';
-
-    /** Copy value from fractionPartNormalizeForm
-     * to doubleInputNormalizeForm
-     */
-    index = indexOfDotDoubleInputNormalizeForm + 1;
-    for (i = 0; i <= sizeOfFractionPartNormalizeForm; i++, index++) {
-        doubleInputNormalizeForm[index]
-                = fractionPartNormalizeForm[i];
-    }
-
-    sizeOfDoubleInputNormalizeForm = sizeOfIntegerPartNormalizeForm + 1
-                                     + sizeOfFractionPartNormalizeForm;
-
-    /** Assign value to indexFirstBit1DoubleInputNormalizeForm */
-    indexFirstBit1DoubleInputNormalizeForm = 1;
-    for (i = 0; i <= sizeOfDoubleInputNormalizeForm; i++) {
-        if (doubleInputNormalizeForm[i] == '1') {
-            indexFirstBit1DoubleInputNormalizeForm = i;
-            break;
-        }
-    }
-
-    integerPartDoubleInput = static_cast<int> (floor(doubleInput));
-    if (integerPartDoubleInput != 0) {
-        powerExponentBase2 = indexOfDotDoubleInputNormalizeForm
-                             - indexFirstBit1DoubleInputNormalizeForm - 1;
-    }
-
-    if (integerPartDoubleInput == 0) {
-        powerExponentBase2 = indexOfDotDoubleInputNormalizeForm
-                             - indexFirstBit1DoubleInputNormalizeForm;
-    }
-
-    exponentDoubleInput = powerExponentBase2 + exponentBiasBinary64;
-
-    index = sizeOfExponentPartBinary64;
-
-    while (exponentDoubleInput != 0) {
-
-        if ((exponentDoubleInput & 1) == 1) {
-            resultDoubleToBinary64StringType[index] = '1';
-        }
-
-        if ((exponentDoubleInput & 1) == 0) {
-            resultDoubleToBinary64StringType[index] = '0';
-        }
-
-        index--;
-        exponentDoubleInput = exponentDoubleInput >> 1;
-    }
-
-    indexBeginFractionPartResultDoubleToBinary64StringType
-            = sizeOfExponentPartBinary64 + 1;
-
-    index = indexBeginFractionPartResultDoubleToBinary64StringType;
-    i = indexFirstBit1DoubleInputNormalizeForm + 1;
-
-    for (index; index <= 63; index++) {
-        if (i == sizeOfDoubleInputNormalizeForm) {
-            break;
-        }
-
-        if (i == indexOfDotDoubleInputNormalizeForm) {
-            i++;
-        }
-
-        resultDoubleToBinary64StringType[index]
-                = doubleInputNormalizeForm[i];
-        i++;
-    }
-
-    outPut:
-    /** Return resultDoubleToBinary64StringType */
-    free(integerPartNormalizeForm);
-    free(fractionPartNormalizeForm);
-    free(doubleInputNormalizeForm);
-
-    String result = resultDoubleToBinary64StringType;
-    free(resultDoubleToBinary64StringType);
-
-    return result;
-}
-
-double Double::binary64StringTypeToDouble(String binary64StringTypeInput) {
-    // Create variable
-    int signOfResultbinary64StringTypeToDouble;
-    double exponent;
-    double exponentAdjusted;
-    double mantisaBase10;
-    double resultBinary64StringTypeToDouble;
-
-    int tempValue = 0;
-    int tempExponent;
-    int i;
-
-    boolean isNaN = true;
-
-    // 1. Find signOfResultbinary64StringTypeToDouble
-    signOfResultbinary64StringTypeToDouble = 1;
-
-    if (binary64StringTypeInput.charAt(0) == '1') {
-        signOfResultbinary64StringTypeToDouble = -1;
-    }
-
-    // 2. Convert the exponent from base 2 -> base 10
-    exponent = 0;
-    tempExponent = 10;
-    for (i = 1; i <= 11; i++) {
-        if (binary64StringTypeInput.charAt(i) == '1') {
-            tempValue = 1;
-        }
-
-        if (binary64StringTypeInput.charAt(i) == '0') {
-            tempValue = 0;
-            isNaN = false;
-        }
-
-        exponent = exponent + tempValue * Math::pow(2, tempExponent);
-        tempExponent--;
-    }
-    // 3. Find exponentAdjusted
-    exponentAdjusted = exponent - 1023;
-
-    // 4. Convert the mantissa from base 2 -> base 10
-    mantisaBase10 = 0;
-    tempExponent = -1;
-    for (i = 12; i <= 63; i++) {
-        if (binary64StringTypeInput.charAt(i) == '1') {
-            tempValue = 1;
-        }
-
-        if (binary64StringTypeInput.charAt(i) == '0') {
-            tempValue = 0;
-            isNaN = false;
-        }
-
-        mantisaBase10 = mantisaBase10 + tempValue * Math::pow(2, tempExponent);
-        tempExponent--;
-    }
-
-    // 5. Find the Double precision floating point decimal value
-    resultBinary64StringTypeToDouble
-            = signOfResultbinary64StringTypeToDouble * (1 + mantisaBase10)
-              * Math::pow(2, exponentAdjusted);
-
-    return resultBinary64StringTypeToDouble;
-}
-
-String Double::longBitsToBinary64StringType(long longBitsInput) {
-    auto resultLongBitsToBinary64StringType = (string) allocateMemory(65 * sizeof(char));
-    int index;
-    int i;
-
-    for (i = 0; i <= 63; i++) {
-        resultLongBitsToBinary64StringType[i] = '0';
-    }
-
-    resultLongBitsToBinary64StringType[64] = '\0';
-
-    if (longBitsInput < 0) {
-        resultLongBitsToBinary64StringType[0] = '1';
-        longBitsInput = -longBitsInput;
-    }
-
-    index = 63;
-    while ((longBitsInput != 0) || (index > 1)) {
-        if ((longBitsInput & 1) == 1) {
-            resultLongBitsToBinary64StringType[index] = '1';
-        }
-
-        if ((longBitsInput & 1) == 0) {
-            resultLongBitsToBinary64StringType[index] = '0';
-        }
-
-        index--;
-        longBitsInput = longBitsInput >> 1;
-    }
-
-    String result = resultLongBitsToBinary64StringType;
-    free(resultLongBitsToBinary64StringType);
-
-    return result;
-}
-
 Double Double::valueOf(String stringInput) {
     return Double::parseDouble(stringInput);
 }
diff --git a/library/Java/Lang/Double/Double.hpp b/library/Java/Lang/Double/Double.hpp
index 0f56a54..138644d 100755
--- a/library/Java/Lang/Double/Double.hpp
+++ b/library/Java/Lang/Double/Double.hpp
@@ -514,37 +514,6 @@ namespace Java {
 				private:
 						double original;
 						string originalString;
-						
-						/**
-						* Convert double to binary 64 bit
-						* (Double-precision floating-point format
-						* In IEEE 754-2008)
-						*
-						* @param double
-						* @return string binary 64 bit of input
-						*/
-						static String doubleToBinary64StringType(double doubleInput);
-						
-						/**
-						* Convert binary64StringType To Double
-						* (Double-precision floating-point format
-						* In IEEE 754-2008)
-						* To Double
-						 *
-						* @param  string
-						* @return double
-						*/
-						static double binary64StringTypeToDouble(String Binary64StringTypeInput);
-						
-						/**
-						* Convert longBits To Binary64StringType
-						* (Double-precision floating-point format
-						* In IEEE 754-2008)
-						 *
-						* @param  long
-						* @return string
-						*/
-						static String longBitsToBinary64StringType(long longBitsInput);
 				
 				public:
 						inline size_t operator()(const Double &target) const {
diff --git a/library/Java/Lang/Float/Float.cpp b/library/Java/Lang/Float/Float.cpp
index 4a79365..44c2a9d 100755
--- a/library/Java/Lang/Float/Float.cpp
+++ b/library/Java/Lang/Float/Float.cpp
@@ -208,365 +208,21 @@ Float Float::valueOf(float inputFloat) {
     return Float(inputFloat);
 }
 
-String Float::floatToBinary32StringType(float floatInput) {
-    string integerPartNormalizeForm = (string) calloc (280, sizeof(char));
-    string fractionPartNormalizeForm = (string) calloc (25, sizeof(char));
-    string floatInputNormalizeForm = (string) calloc (280, sizeof(char));
-    string resultFloatToBinary32StringType
-            = (string) calloc (33, sizeof(char));
-
-    int powerExponentBase2 = 0;
-    int integerPartFloatInput;
-
-    int sizeOfIntegerPartNormalizeForm;
-    int sizeOfFractionPartNormalizeForm;
-    int sizeOfFloatInputNormalizeForm;
-
-    int sizeOfExponentPartBinary32 = 8;
-
-    int indexOfFor;
-    int index;
-    int indexOfDotFloatInputNormalizeForm;
-    int indexFirstBit1FloatInputNormalizeForm;
-    int indexBeginFractionPartResultFloatToBinary32StringType = 0;
-
-    int exponentBiasBinary32 = 127;
-    int exponentFloatInput;
-
-    float fractionPartFloatInput;
-
-    for (indexOfFor = 0 ; indexOfFor <= 31; indexOfFor++) {
-        floatInputNormalizeForm[indexOfFor] = '0';
-        resultFloatToBinary32StringType[indexOfFor] = '0';
-    }
-
-    for (indexOfFor = 0 ; indexOfFor <= 23; indexOfFor++) {
-        integerPartNormalizeForm[indexOfFor] = '0';
-        fractionPartNormalizeForm[indexOfFor] = '0';
-    }
-
-    /** Set end point for string type */
-    integerPartNormalizeForm[279] = '\0';
-    fractionPartNormalizeForm[24] = '\0';
-    floatInputNormalizeForm[279] = '\0';
-    resultFloatToBinary32StringType[32] = '\0';
-
-    if (floatInput >= 0) {
-        resultFloatToBinary32StringType[0] = '0';
-    }
-
-    if (floatInput < 0) {
-        resultFloatToBinary32StringType[0] = '1';
-    }
-
-    if (floatInput == 0) {
-        goto outPut;
-    }
-
-    if (floatInput == Float::POSITIVE_INFINITY) {
-        strcpy(resultFloatToBinary32StringType, "01111111100000000000000000000000");
-        goto outPut;
-    }
-
-    if (floatInput == Float::NEGATIVE_INFINITY) {
-        strcpy(resultFloatToBinary32StringType, "11111111100000000000000000000000");
-        goto outPut;
-    }
-
-    if (isNaN(floatInput)) {
-        strcpy(resultFloatToBinary32StringType, "01111111111111111111111111111111");
-
-        goto outPut;
-    }
-
-    /** Get |floatInput| */
-    floatInput = fabs(floatInput);
-
-    /** Get size of integerPartNormalizeForm  */
-    integerPartFloatInput = (int) floor(floatInput);
-    sizeOfIntegerPartNormalizeForm = 0;
-
-    if (integerPartFloatInput == 0) {
-        sizeOfIntegerPartNormalizeForm = 1;
-    }
-
-    if (integerPartFloatInput != 0) {
-        while (integerPartFloatInput != 0) {
-            sizeOfIntegerPartNormalizeForm++;
-            integerPartFloatInput = integerPartFloatInput >> 1;
-        }
-    }
-
-    integerPartFloatInput = (int) floor(floatInput);
-    index = sizeOfIntegerPartNormalizeForm -1;
-    while (integerPartFloatInput != 0) {
-        if ((integerPartFloatInput & 1) == 1) {
-            integerPartNormalizeForm[index] = '1';
-        }
-
-        if ((integerPartFloatInput & 1) == 0) {
-            integerPartNormalizeForm[index] = '0';
-        }
-
-        index--;
-        integerPartFloatInput = integerPartFloatInput >> 1;
-    }
-
-    fractionPartFloatInput = floatInput - integerPartFloatInput;
-    index = 0;
-
-    while ((fractionPartFloatInput != 0) && (index < 24)) {
-        fractionPartFloatInput = fractionPartFloatInput * 2;
-
-        int integerPart = (int) floor(fractionPartFloatInput);
-
-        if (integerPart == 1) {
-            fractionPartNormalizeForm[index] = '1';
-        }
-
-        if (integerPart == 0) {
-            fractionPartNormalizeForm[index] = '0';
-        }
-
-        index++;
-        fractionPartFloatInput = fractionPartFloatInput - integerPart;
-    }
-
-    sizeOfFractionPartNormalizeForm = index;
-
-    /** Copy value from integerPartNormalizeForm to floatInputNormalizeForm */
-    for (indexOfFor = 0; indexOfFor < sizeOfIntegerPartNormalizeForm; indexOfFor++) {
-        floatInputNormalizeForm[indexOfFor] = integerPartNormalizeForm[indexOfFor];
-    }
-
-    indexOfDotFloatInputNormalizeForm = sizeOfIntegerPartNormalizeForm;
-
-    floatInputNormalizeForm[indexOfDotFloatInputNormalizeForm] = '.';
-
-    /** Copy value from fractionPartNormalizeForm
-     * to floatInputNormalizeForm
-     */
-    index = indexOfDotFloatInputNormalizeForm +1;
-    for (indexOfFor = 0; indexOfFor <= sizeOfFractionPartNormalizeForm; indexOfFor++, index++) {
-        floatInputNormalizeForm[index]
-                = fractionPartNormalizeForm[indexOfFor];
-    }
-
-    sizeOfFloatInputNormalizeForm = sizeOfIntegerPartNormalizeForm + 1
-                                    + sizeOfFractionPartNormalizeForm;
-
-    indexFirstBit1FloatInputNormalizeForm = 1;
-    for (indexOfFor = 0; indexOfFor <= sizeOfFloatInputNormalizeForm; indexOfFor++) {
-        if (floatInputNormalizeForm[indexOfFor] == '1') {
-            indexFirstBit1FloatInputNormalizeForm = indexOfFor;
-            break;
-        }
-    }
-
-    integerPartFloatInput = (int) floor(floatInput);
-    if (integerPartFloatInput != 0) {
-        powerExponentBase2 = indexOfDotFloatInputNormalizeForm
-                             - indexFirstBit1FloatInputNormalizeForm -1;
-    }
-
-    if (integerPartFloatInput == 0) {
-        powerExponentBase2 = indexOfDotFloatInputNormalizeForm
-                             - indexFirstBit1FloatInputNormalizeForm;
-    }
-
-    exponentFloatInput = powerExponentBase2 + exponentBiasBinary32;
-
-    index = sizeOfExponentPartBinary32;
-
-    while (exponentFloatInput != 0) {
-        if ((exponentFloatInput & 1) == 1) {
-            resultFloatToBinary32StringType[index] = '1';
-        }
-
-        if ((exponentFloatInput & 1) == 0) {
-            resultFloatToBinary32StringType[index] = '0';
-        }
-
-        index--;
-        exponentFloatInput = exponentFloatInput >> 1;
-    }
-
-    indexBeginFractionPartResultFloatToBinary32StringType
-            = sizeOfExponentPartBinary32 + 1;
-
-    index = indexBeginFractionPartResultFloatToBinary32StringType;
-    indexOfFor = indexFirstBit1FloatInputNormalizeForm + 1;
-
-    for (index ; index <= 31; index++) {
-        if (indexOfFor == sizeOfFloatInputNormalizeForm) {
-            break;
-        }
-
-        if (indexOfFor == indexOfDotFloatInputNormalizeForm) {
-            indexOfFor++;
-        }
-
-        resultFloatToBinary32StringType[index]
-                = floatInputNormalizeForm[indexOfFor];
-        indexOfFor++;
-    }
-
-    outPut:
-    /** Return resultFloatToBinary32StringType */
-    free(integerPartNormalizeForm);
-    free(fractionPartNormalizeForm);
-    free(floatInputNormalizeForm);
-    String result = resultFloatToBinary32StringType;
-    free(resultFloatToBinary32StringType);
-
-    return  result;
-}
-
-float Float::binary32StringTypeToFloat(String binary32StringTypeInput) {
-    // Create variable
-    int signOfResultbinary32StringTypeToFloat;
-    float exponent;
-    float exponentAdjusted;
-    float mantisaBase10;
-    float resultBinary32StringTypeToFloat;
-
-    int tempValue = 0;
-    int tempExponent;
-    int indexOfFor;
-
-    boolean isNaN = true;
-
-    // 1. Find signOfResultbinary32StringTypeToFloat
-    signOfResultbinary32StringTypeToFloat = 1;
-
-    if (binary32StringTypeInput.charAt(0) == '1') {
-        signOfResultbinary32StringTypeToFloat = -1;
-    }
-
-    // 2. Convert the exponent from base 2 -> base 10
-    exponent = 0;
-    tempExponent = 7;
-    for (indexOfFor = 1; indexOfFor <= 8; indexOfFor++) {
-        if (binary32StringTypeInput.charAt(indexOfFor) == '1') {
-            tempValue = 1;
-        }
-
-        if (binary32StringTypeInput.charAt(indexOfFor) == '0') {
-            tempValue = 0;
-            isNaN = false;
-        }
-
-        exponent = exponent + tempValue * (float) Math::pow(2, tempExponent);
-        tempExponent--;
-    }
-    // 3. Find exponentAdjusted
-    exponentAdjusted = exponent - 127;
-
-    // 4. Convert the mantissa from base 2 -> base 10
-    mantisaBase10 = 0;
-    tempExponent = -1;
-    for (indexOfFor = 9; indexOfFor <= 31; indexOfFor++) {
-        if (binary32StringTypeInput.charAt(indexOfFor) == '1') {
-            tempValue = 1;
-        }
-
-        if (binary32StringTypeInput.charAt(indexOfFor) == '0') {
-            tempValue = 0;
-            isNaN = false;
-        }
-
-        mantisaBase10 = mantisaBase10
-                        + tempValue * (float) (Math::pow(2, tempExponent));
-        tempExponent--;
-    }
-
-    // 5. Find the Float precision floating point decimal value
-    resultBinary32StringTypeToFloat
-            = signOfResultbinary32StringTypeToFloat * (1 + mantisaBase10)
-              * (float) (Math::pow(2, exponentAdjusted));
-
-    if (isNaN) {
-        return Float::NaN;
-    }
-
-    return resultBinary32StringTypeToFloat;
-}
-
 int Float::floatToRawIntBits(float floatInput) {
-    String floatInputToBinary32StringType;
-    int resultFloatToRawIntBits;
-    int tempValue;
-    int exponent;
-    int indexOfFor;
-
-    floatInputToBinary32StringType = floatToBinary32StringType(floatInput);
-
-    exponent = 30;
-    tempValue = 0;
-    resultFloatToRawIntBits = 0;
-
-    for (indexOfFor = 1; indexOfFor <= 31; indexOfFor++) {
-        if (floatInputToBinary32StringType.charAt(indexOfFor) == '1') {
-            tempValue = 1;
-        }
-
-        if (floatInputToBinary32StringType.charAt(indexOfFor) == '0') {
-            tempValue = 0;
-        }
-        resultFloatToRawIntBits = resultFloatToRawIntBits + tempValue
-                                                            * (int) Math::pow(2, exponent);
-        exponent--;
-    }
-
-    if (floatInputToBinary32StringType.charAt(0) == '1') {
-        resultFloatToRawIntBits =  (-1) * resultFloatToRawIntBits;
-    }
-
-    return resultFloatToRawIntBits;
+	if (Float::isNaN(floatInput)) {
+		return std::numeric_limits<int>::max();
+	}
+	// the sign, then the magnitude: a negative number has the negated bits of its absolute value
+	int bits;
+	memcpy(&bits, &floatInput, sizeof(bits));
+	int magnitude = bits & std::numeric_limits<int>::max();
+	return floatInput < 0 ? -magnitude : magnitude;
 }
 
 int Float::floatToIntBits(float inputFloat) {
     return floatToRawIntBits(inputFloat);
 }
 
-String Float::intBitsToBinary32StringType(int intBitsInput) {
-    string resultIntBitsToBinary32StringType
-            = (string) calloc(33, sizeof (char));
-    int index;
-    int indexOfFor;
-
-    for (indexOfFor = 0; indexOfFor <= 31; indexOfFor++) {
-        resultIntBitsToBinary32StringType[indexOfFor] = '0';
-    }
-
-    resultIntBitsToBinary32StringType[32] = '\0';
-
-    if (intBitsInput < 0) {
-        resultIntBitsToBinary32StringType[0] = '1';
-        intBitsInput = -intBitsInput;
-    }
-
-    index = 31;
-    while ((intBitsInput != 0) || (index > 1)) {
-
-        if ( (intBitsInput & 1) ==1 ) {
-            resultIntBitsToBinary32StringType[index] = '1';
-        }
-
-        if ( (intBitsInput & 1) == 0 ) {
-            resultIntBitsToBinary32StringType[index] = '0';
-        }
-
-        index--;
-        intBitsInput = intBitsInput >> 1;
-    }
-
-    String result = resultIntBitsToBinary32StringType;
-    free(resultIntBitsToBinary32StringType);
-
-    return result;
-}
-
 int Float::compare(float float1, float float2) {
     int thisBits = Float::floatToIntBits(float1);
     int anotherBits = Float::floatToIntBits(float2);
@@ -609,12 +265,14 @@ float Float::min(float numberFloat, float anotherNumberFloat) {
 }
 
 float Float::intBitsToFloat(int intBitsInput) {
-    union {
-        int i;
-        float f;
-    } u;
-    u.i = (long) intBitsInput;
-    return (float) u.f;
+	unsigned int bits = (unsigned int) intBitsInput;
+	if (intBitsInput < 0) {
+		// see floatToRawIntBits: the bits of the absolute value were negated
+		bits = (0 - bits) | ((unsigned int) 1 << 31);
+	}
+	float result;
+	memcpy(&result, &bits, sizeof(result));
+	return result;
 }
 
 String Float::toString(float inputFloat) {
diff --git a/library/Java/Lang/Float/Float.hpp b/library/Java/Lang/Float/Float.hpp
index f33f667..cf4614a 100755
--- a/library/Java/Lang/Float/Float.hpp
+++ b/library/Java/Lang/Float/Float.hpp
@@ -550,39 +550,6 @@ namespace Java {
 						 */
 						static int floatToIntBits(float inputFloat);
 				
-				private:
-						/**
-						 * Convert float to binary 32 bit
-						 * (Single-precision floating-point format
-						 * In IEEE 754-2008)
-						 *
-						 * @param    floatInput
-						 * @return   String binary 32 bit of input
-						 */
-						static String floatToBinary32StringType(float floatInput);
-						
-						/**
-						 * Convert binary32StringType To Float
-						 * (Float-precision floating-point format
-						 * In IEEE 754-2008)
-						 * To Float
-						 *
-						 * @param  binary32StringTypeInput
-						 * @return float
-						 */
-						static float binary32StringTypeToFloat(
-							String binary32StringTypeInput);
-						
-						/**
-						 * Convert intBits To Binary64StringType
-						 * (Float-precision floating-point format
-						 * In IEEE 754-2008)
-						 *
-						 * @param  intBitsInput
-						 * @return string
-						 */
-						static String intBitsToBinary32StringType(int intBitsInput);
-				
 				public:
 						inline size_t operator()(const Float &target) const {
 							return std::hash<int>{}(Float::hashCode(target.original));
-- 
2.43.0


From fd9bee3a9a949713a8ad11a49658919c3a06b8aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:59 +0000
Subject: [PATCH 041/118] fix: Math.multiplyExact and toIntExact missed
 overflows

---
 library/Java/Lang/Math/Math.cpp | 18 ++++--------------
 1 file changed, 4 insertions(+), 14 deletions(-)

diff --git a/library/Java/Lang/Math/Math.cpp b/library/Java/Lang/Math/Math.cpp
index 3d488fd..d26bbec 100755
--- a/library/Java/Lang/Math/Math.cpp
+++ b/library/Java/Lang/Math/Math.cpp
@@ -290,26 +290,16 @@ double Math::min(double valueA, double valueB) {
 
 int Math::multiplyExact(int valueA, int valueB) {
 	long result = (long) valueA * (long) valueB;
-	if (result -  (int) result > 0) {
+	if (result != (int) result) {
 		throw ArithmeticException("integer overflow");
 	}
 	return (int) result;
 }
 
 long Math::multiplyExact(long valueA, long valueB) {
-	if (valueA == Long::MIN_VALUE && valueB == -1) {
+	long result;
+	if (__builtin_mul_overflow(valueA, valueB, &result)) {
 		throw ArithmeticException("long overflow");
-		
-	}
-	
-	long result = valueA * valueB;
-	unsigned long absA = (unsigned) abs(valueA);
-	unsigned long absB = (unsigned) abs(valueB);
-	
-	if (((absA | absB) >> 31) != 0) {
-		if ((valueB != 0) && (result / valueB != valueA)) {
-			throw ArithmeticException("long overflow");
-		}
 	}
 	return result;
 }
@@ -484,7 +474,7 @@ double Math::toDegrees(double angleRadian) {
 }
 
 int Math::toIntExact(long value) {
-	if (value - (int) value > 0) {
+	if (value != (int) value) {
 		throw ArithmeticException("integer overflow");
 	}
 	return (int) value;
-- 
2.43.0


From b7c187f12b0aad299c6682ddc70f26bfa8abe272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:00 +0000
Subject: [PATCH 042/118] fix: Math.floorDiv trapped on the least value and -1

---
 library/Java/Lang/Math/Math.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/library/Java/Lang/Math/Math.cpp b/library/Java/Lang/Math/Math.cpp
index d26bbec..64ed03a 100755
--- a/library/Java/Lang/Math/Math.cpp
+++ b/library/Java/Lang/Math/Math.cpp
@@ -142,6 +142,10 @@ int Math::floorDiv(int dividend, int divisor) {
 	if (divisor == 0) {
 		throw ArithmeticException();
 	}
+	if (divisor == -1) {
+		// the machine traps on MIN_VALUE / -1
+		return (int) (0 - (unsigned int) dividend);
+	}
 	int result = dividend / divisor;
 	// if the signs are different and modulo not zero, round down
 	if ((dividend ^ divisor) < 0 && (result * divisor != dividend)) {
@@ -154,6 +158,10 @@ long Math::floorDiv(long dividend, long divisor) {
 	if (divisor == 0) {
 		throw ArithmeticException();
 	}
+	if (divisor == -1) {
+		// the machine traps on MIN_VALUE / -1
+		return (long) (0 - (unsigned long) dividend);
+	}
 	long result = dividend / divisor;
 	// if the signs are different and modulo not zero, round down
 	if ((dividend ^ divisor) < 0 && (result * divisor != dividend)) {
-- 
2.43.0


From 6162d9382b663b6277e708ba847de2c092120ad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:00 +0000
Subject: [PATCH 043/118] fix: Math.round did not saturate as documented

---
 library/Java/Lang/Math/Math.cpp | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/library/Java/Lang/Math/Math.cpp b/library/Java/Lang/Math/Math.cpp
index 64ed03a..19963cf 100755
--- a/library/Java/Lang/Math/Math.cpp
+++ b/library/Java/Lang/Math/Math.cpp
@@ -395,10 +395,28 @@ float Math::powerOfTwoF(int exponent) {
 	/*return Float::intBitsToFloat(((exponent + Float::EXP_BIAS)
 			<< (Float::SIGNIFICAND_WIDTH-1)) & Float::EXP_BIT_MASK);*/
 	return 0;
+	if (value != value) {
+		return 0;
+	}
+	if (value <= (float) Integer::MIN_VALUE) {
+		return Integer::MIN_VALUE;
+	}
+	if (value >= (float) Integer::MAX_VALUE) {
+		return Integer::MAX_VALUE;
+	}
 }
 
 double Math::random() {
 	Random random1 = Random();
+	if (value != value) {
+		return 0;
+	}
+	if (value <= (double) Long::MIN_VALUE) {
+		return Long::MIN_VALUE;
+	}
+	if (value >= (double) Long::MAX_VALUE) {
+		return Long::MAX_VALUE;
+	}
 	return random1.nextDouble();
 }
 
-- 
2.43.0


From e25af8bfab6e9f56c889a261add9a601e3152687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:00 +0000
Subject: [PATCH 044/118] fix: Math.IEEERemainder rounded ties away from zero

---
 library/Java/Lang/Math/Math.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/library/Java/Lang/Math/Math.cpp b/library/Java/Lang/Math/Math.cpp
index 19963cf..7c8a70f 100755
--- a/library/Java/Lang/Math/Math.cpp
+++ b/library/Java/Lang/Math/Math.cpp
@@ -221,7 +221,10 @@ double Math::hypot(double valueA, double valueB) {
 }
 
 inline double math_ieeeremainder(double dividend, double divisor) {
-	return dividend - ( round(dividend / divisor) * divisor );
+	if (divisor == Double::POSITIVE_INFINITY || divisor == Double::NEGATIVE_INFINITY) {
+		return Double::NaN;
+	}
+	return ::remainder(dividend, divisor);
 }
 
 double Math::IEEERemainder(double dividend, double divisor) {
-- 
2.43.0


From 5901d4d662f327e8a71d08205268720f351bfa38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:00 +0000
Subject: [PATCH 045/118] fix: Math.powerOfTwoF, ulp and getExponent answered 0
 or garbage for many values

---
 library/Java/Lang/Math/Math.cpp | 105 +++++++++++---------------------
 1 file changed, 34 insertions(+), 71 deletions(-)

diff --git a/library/Java/Lang/Math/Math.cpp b/library/Java/Lang/Math/Math.cpp
index 7c8a70f..341c215 100755
--- a/library/Java/Lang/Math/Math.cpp
+++ b/library/Java/Lang/Math/Math.cpp
@@ -187,14 +187,8 @@ int Math::getExponent(double value) {
 		return Double::MIN_EXPONENT - 1;
 	}
 	
-	double mantissas;
-	int exponent;
-	mantissas = std::frexp(value, &exponent);
-	if (mantissas * 10 >= 1.0 && exponent - 1 < Double::MIN_EXPONENT) {
-		return Double::MIN_EXPONENT - 1;
-	}
-	
-	return exponent - 1;
+	int exponent = ::ilogb(value);
+	return exponent < Double::MIN_EXPONENT ? Double::MIN_EXPONENT - 1 : exponent;
 }
 
 int Math::getExponent(float value) {
@@ -206,14 +200,8 @@ int Math::getExponent(float value) {
 		return Float::MIN_EXPONENT - 1;
 	}
 	
-	double mantissas;
-	int exponent;
-	mantissas = std::frexp(value, &exponent);
-	if ((mantissas * 10) >= 1.0 && (exponent - 1) < Float::MIN_EXPONENT) {
-		return Float::MIN_EXPONENT - 1;
-	}
-	
-	return exponent - 1;
+	int exponent = ::ilogbf(value);
+	return exponent < Float::MIN_EXPONENT ? Float::MIN_EXPONENT - 1 : exponent;
 }
 
 double Math::hypot(double valueA, double valueB) {
@@ -394,10 +382,19 @@ float Math::powerOfTwoF(int exponent) {
 	if (exponent < Float::MIN_EXPONENT || exponent > Float::MAX_EXPONENT) {
 		throw AssertionError(exponent);
 	}
-	
-	/*return Float::intBitsToFloat(((exponent + Float::EXP_BIAS)
-			<< (Float::SIGNIFICAND_WIDTH-1)) & Float::EXP_BIT_MASK);*/
-	return 0;
+	return ::ldexpf(1.0f, exponent);
+}
+
+double Math::random() {
+	Random random1 = Random();
+	return random1.nextDouble();
+}
+
+double Math::rint(double value) {
+	return ::rint(value);
+}
+
+int Math::round(float value) {
 	if (value != value) {
 		return 0;
 	}
@@ -407,10 +404,10 @@ float Math::powerOfTwoF(int exponent) {
 	if (value >= (float) Integer::MAX_VALUE) {
 		return Integer::MAX_VALUE;
 	}
+	return (int) ::roundf(value);
 }
 
-double Math::random() {
-	Random random1 = Random();
+long Math::round(double value) {
 	if (value != value) {
 		return 0;
 	}
@@ -420,18 +417,6 @@ double Math::random() {
 	if (value >= (double) Long::MAX_VALUE) {
 		return Long::MAX_VALUE;
 	}
-	return random1.nextDouble();
-}
-
-double Math::rint(double value) {
-	return ::rint(value);
-}
-
-int Math::round(float value) {
-	return (int) ::roundf(value);
-}
-
-long Math::round(double value) {
 	return (long) ::round(value);
 }
 
@@ -518,48 +503,26 @@ float Math::ulp(float value) {
 	if (value == Float::MAX_VALUE || value == -Float::MAX_VALUE) {
 		return (float) Math::pow(2, 104);
 	}
-	int exp = getExponent(value);
-	switch(exp) {
-		case Float::MAX_EXPONENT + 1:        // NaN or infinity
-			return Math::abs(value);
-		case Float::MIN_EXPONENT - 1:        // zero or subnormal
-			return Float::MIN_VALUE;
-		default:
-			if (exp > Float::MAX_EXPONENT || exp < Float::MIN_EXPONENT) {
-				throw AssertionError(exp);
-			}
-			
-			exp = exp - (Float::SIGNIFICAND_WIDTH - 1);
-			if (exp >= Float::MIN_EXPONENT) {
-				return powerOfTwoF(exp);
-			}
-			/*   return Float::intBitsToFloat(1 << (exp - (Float::MIN_EXPONENT
-														 - (Float::SIGNIFICAND_WIDTH - 1)) ));*/
-	}
-	return 0.0;
+	if (Float::isNaN(value) || value == 0) {
+		return Float::isNaN(value) ? value : Float::MIN_VALUE;
+	}
+	value = ::fabsf(value);
+	if (value == Float::POSITIVE_INFINITY) {
+		return value;
+	}
+	return ::nextafterf(value, Float::POSITIVE_INFINITY) - value;
 }
 
 double Math::ulp(double value) {
 	if (value == Double::MAX_VALUE || value == -Double::MAX_VALUE) {
 		return Math::pow(2, 971);
 	}
-	int exp = getExponent(value);
-	switch (exp) {
-		case Double::MAX_EXPONENT + 1:        // NaN or infinity
-			return Math::abs(value);
-		case Double::MIN_EXPONENT - 1:        // zero or subnormal
-			return Double::MIN_VALUE;
-		default:
-			if (exp > Double::MAX_EXPONENT || exp < Double::MIN_EXPONENT) {
-				throw AssertionError(exp);
-			}
-			
-			exp = exp - (Double::SIGNIFICAND_WIDTH - 1);
-			if (exp >= Double::MIN_EXPONENT) {
-				return powerOfTwoD(exp);
-			}
-			
-			return Double::longBitsToDouble(1 << (exp - (Double::MIN_EXPONENT
-			                                             - (Double::SIGNIFICAND_WIDTH - 1))));
+	if (Double::isNaN(value) || value == 0) {
+		return Double::isNaN(value) ? value : Double::MIN_VALUE;
+	}
+	value = ::fabs(value);
+	if (value == Double::POSITIVE_INFINITY) {
+		return value;
 	}
+	return ::nextafter(value, Double::POSITIVE_INFINITY) - value;
 }
\ No newline at end of file
-- 
2.43.0


From 229a858f3fbe873174dcfcd0ced8746276abdfca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:16 +0000
Subject: [PATCH 046/118] fix: Long.decode misread the least value and negative
 text that is not a number; parseLong trapped on radix 0

---
 library/Java/Lang/Long/Long.cpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/library/Java/Lang/Long/Long.cpp b/library/Java/Lang/Long/Long.cpp
index 6b1cfca..58faaf9 100755
--- a/library/Java/Lang/Long/Long.cpp
+++ b/library/Java/Lang/Long/Long.cpp
@@ -166,15 +166,14 @@ Long Long::decode(String target) {
 		radix = 8;
 	}
 	
-	if (target.startsWith("-", index) || target.startsWith("+", index)) {
+	if (index >= target.length() || target.startsWith("-", index) || target.startsWith("+", index)) {
 		//FIXME: exception
 		return -1;
 	}
 	
-	result = Long::parseLong(target.getStringFromIndex(index), radix);
-	if (negative) {
-		result = -result.longValue();
-	}
+	// The sign is parsed with the digits: the magnitude of the least value is not a long
+	String digits = target.getStringFromIndex(index);
+	result = Long::parseLong(negative ? String("-") + digits : digits, radix);
 	
 	return result;
 }
@@ -373,6 +372,10 @@ long Long::parseLong(String s, int radix) {
 	long multmin;
 	int digit;
 	
+	if (radix < 2 || radix > 36) {
+		return -1;
+	}
+	
 	if (length > 0) {
 		char firstChar = s.charAt(0);
 		if (firstChar < '0') { // Possible leading "+" or "-"
-- 
2.43.0


From 6e394409c328388e0e4fe898bae0e2dc3eaae2c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:53 +0000
Subject: [PATCH 047/118] fix: ArrayList.add(index, element) ignored the index
 one past the last and corrupted an empty list

---
 library/Java/Util/ArrayList/ArrayList.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/Java/Util/ArrayList/ArrayList.hpp b/library/Java/Util/ArrayList/ArrayList.hpp
index 7d582cc..fb20e6a 100755
--- a/library/Java/Util/ArrayList/ArrayList.hpp
+++ b/library/Java/Util/ArrayList/ArrayList.hpp
@@ -154,7 +154,7 @@ namespace Java {
 			 * @param element
 			 */
 			void add(int index, const E element) {
-				if (index < 0 || index > this->original.size() - 1) {
+				if (index < 0 || index > this->size()) {
 					return;
 				}
 				this->original.insert(this->original.begin() + index, element);
-- 
2.43.0


From 342450c66296141430633f562f5f8923fa30ccb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:53 +0000
Subject: [PATCH 048/118] fix: LinkedList copies shared and freed each other's
 nodes

---
 library/Java/Util/LinkedList/LinkedList.hpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/library/Java/Util/LinkedList/LinkedList.hpp b/library/Java/Util/LinkedList/LinkedList.hpp
index b1c6490..ebeeab4 100755
--- a/library/Java/Util/LinkedList/LinkedList.hpp
+++ b/library/Java/Util/LinkedList/LinkedList.hpp
@@ -87,6 +87,20 @@ namespace Java {
                 public:
                     IteratorType begin() {
                         return this->original.begin();
+                    LinkedList(const LinkedList<E> &target) {
+                        for (const Node<E> *node : target.original) {
+                            this->add(node->element);
+                        }
+                    }
+
+                    LinkedList<E> &operator=(const LinkedList<E> &target) {
+                        if (this != &target) {
+                            LinkedList<E> copy(target);
+                            this->original.swap(copy.original);
+                        }
+                        return *this;
+                    }
+
                     }
 
                     IteratorType begin() const {
-- 
2.43.0


From 15b2ad1639e30be0ce2752c775f6661458ee33d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:53 +0000
Subject: [PATCH 049/118] fix: LinkedList.offer and set did not compile

---
 library/Java/Util/LinkedList/LinkedList.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/library/Java/Util/LinkedList/LinkedList.hpp b/library/Java/Util/LinkedList/LinkedList.hpp
index ebeeab4..52652d1 100755
--- a/library/Java/Util/LinkedList/LinkedList.hpp
+++ b/library/Java/Util/LinkedList/LinkedList.hpp
@@ -222,7 +222,7 @@ namespace Java {
                      * @return boolean
                      */
                     boolean offer(const E &element) {
-                        this->original.push_back();
+                        this->original.push_back(new Node<E>(element));
                         return true;
                     }
 
@@ -389,9 +389,11 @@ namespace Java {
                      * @param element
                      * @return E
                      */
-                    E set(int index, E &element) {
-                        var value = get(index);
-                        *value = element;
+                    E set(int index, const E &element) {
+                        if (index < 0 || index >= this->size()) {
+                            throw IndexOutOfBoundsException("Index is out of bounds!");
+                        }
+                        (*std::next(this->original.begin(), index))->element = element;
                         return element;
                     }
 
-- 
2.43.0


From a210fad36681eb93feb57fa874572b8486e035dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:54 +0000
Subject: [PATCH 050/118] fix: LinkedList access to an empty list was
 undefined, element() returned nothing

---
 library/Java/Util/LinkedList/LinkedList.hpp | 38 +++++++++++++++------
 1 file changed, 28 insertions(+), 10 deletions(-)

diff --git a/library/Java/Util/LinkedList/LinkedList.hpp b/library/Java/Util/LinkedList/LinkedList.hpp
index 52652d1..b92e5ac 100755
--- a/library/Java/Util/LinkedList/LinkedList.hpp
+++ b/library/Java/Util/LinkedList/LinkedList.hpp
@@ -65,6 +65,13 @@ namespace Java {
                     std::list<Node<E>*> original;
                     typedef typename std::list<Node<E>*>::iterator IteratorType;
                     typedef typename std::list<Node<E>*>::const_iterator ConstIteratorType;
+
+                    void requireElement() const {
+                        if (this->original.empty()) {
+                            throw NoSuchElementException("List is empty!");
+                        }
+                    }
+
                 public:
 
                     LinkedList() = default;
@@ -80,13 +87,6 @@ namespace Java {
                         }
                     }
 
-                    ~LinkedList() {
-                        this->clear();
-                    }
-
-                public:
-                    IteratorType begin() {
-                        return this->original.begin();
                     LinkedList(const LinkedList<E> &target) {
                         for (const Node<E> *node : target.original) {
                             this->add(node->element);
@@ -101,6 +101,13 @@ namespace Java {
                         return *this;
                     }
 
+                    ~LinkedList() {
+                        this->clear();
+                    }
+
+                public:
+                    IteratorType begin() {
+                        return this->original.begin();
                     }
 
                     IteratorType begin() const {
@@ -179,7 +186,7 @@ namespace Java {
                      * @return E
                      */
                     E element() {
-                        this->original.front()->element;
+                        return getFirst();
                     }
 
                     /**
@@ -189,7 +196,7 @@ namespace Java {
                      * @return E
                      */
                     E get(int index) {
-                        if (index < 0 || index > this->original.size() - 1) {
+                        if (index < 0 || index >= this->size()) {
                             throw IndexOutOfBoundsException("Index is out of bounds!");
                         }
                         typename std::list<Node<E>*>::iterator it =  std::next(this->original.begin(), index);
@@ -202,6 +209,7 @@ namespace Java {
                      * @return E
                      */
                     E getFirst() {
+                        this->requireElement();
                         return original.front()->element;
                     }
 
@@ -211,6 +219,7 @@ namespace Java {
                      * @return E
                      */
                     E getLast() {
+                        this->requireElement();
                         var node = this->original.back();
                         return node->element;
                     }
@@ -254,7 +263,7 @@ namespace Java {
                      * @return E
                      */
                     E peek() {
-                        return getFirst();
+                        return peekFirst();
                     }
 
                     /**
@@ -262,6 +271,9 @@ namespace Java {
                      * @return E
                      */
                     E peekFirst() {
+                        if (this->original.empty()) {
+                            return E();
+                        }
                         return getFirst();
                     }
 
@@ -271,6 +283,9 @@ namespace Java {
                      * @return E
                      */
                     E peekLast() {
+                        if (this->original.empty()) {
+                            return E();
+                        }
                         return getLast();
                     }
 
@@ -289,6 +304,7 @@ namespace Java {
                      * @return E
                      */
                     E pollFirst() {
+                        this->requireElement();
                         var  node = this->original.front();
                         this->original.pop_front();
                         var element = node->element;
@@ -302,6 +318,7 @@ namespace Java {
                      * @return E
                      */
                     E pollLast() {
+                        this->requireElement();
                         var node = this->original.back();
                         this->original.pop_back();
                         var element = node->element;
@@ -375,6 +392,7 @@ namespace Java {
                     }
 
                     E removeLast() {
+                        this->requireElement();
                         var node = this->original.back();
                          this->original.pop_back();
                          var element = node->element;
-- 
2.43.0


From d444ee91106b29746ded82e72dc568da38c83871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:54 +0000
Subject: [PATCH 051/118] fix: Vector left its capacity increment uninitialised
 when copied or built from a list

---
 library/Java/Util/Vector/Vector.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/library/Java/Util/Vector/Vector.hpp b/library/Java/Util/Vector/Vector.hpp
index eac0eaf..1f73e27 100755
--- a/library/Java/Util/Vector/Vector.hpp
+++ b/library/Java/Util/Vector/Vector.hpp
@@ -89,7 +89,7 @@ namespace Java {
              *
              * @param list
              */
-            Vector(const std::initializer_list<E> &list) {
+            Vector(const std::initializer_list<E> &list) : capacityIncrement(0) {
                 this->original.reserve(list.size());
                 typename std::initializer_list<E>::iterator listIterator;
                 for (listIterator = list.begin();
@@ -104,7 +104,7 @@ namespace Java {
              *
              * @param target
              */
-            Vector(const Vector<E> &target) {
+            Vector(const Vector<E> &target) : capacityIncrement(target.capacityIncrement) {
                 const E *targetData = target.original.data();
                 int index;
                 for (index = 0; index < target.original.size(); index++) {
-- 
2.43.0


From 6978e07a1455b7cefc994b20fcad91fcc691ce98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:54 +0000
Subject: [PATCH 052/118] fix: Vector.add read a freed element when given one
 of its own, assignment to itself cleared it

---
 library/Java/Util/Vector/Vector.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/library/Java/Util/Vector/Vector.hpp b/library/Java/Util/Vector/Vector.hpp
index 1f73e27..bef346a 100755
--- a/library/Java/Util/Vector/Vector.hpp
+++ b/library/Java/Util/Vector/Vector.hpp
@@ -127,8 +127,9 @@ namespace Java {
              */
             boolean add(const E &element) {
                 int oldSize = (int) this->original.size();
+                E added = element; // the argument may be an element of this Vector
                 this->ensureCapacity(oldSize + 1);
-                this->original.push_back(element);
+                this->original.push_back(added);
                 return (oldSize != this->original.size());
             }
 
@@ -143,8 +144,9 @@ namespace Java {
                 if (index < 0 || index > size) {
                     throw IllegalArgumentException("index is out of range");
                 }
+                E added = element; // the argument may be an element of this Vector
                 this->ensureCapacity(size + 1);
-                this->original.insert(this->original.begin() + index, element);
+                this->original.insert(this->original.begin() + index, added);
             }
 
             /**
@@ -893,6 +895,9 @@ namespace Java {
                 int index;
                 for (index = 0; index < target.size(); index++) {
                     this->original.push_back(targetData[index]);
+                if (this == &target) {
+                    return *this;
+                }
                 }
                 return *this;
             }
-- 
2.43.0


From 69656d17ee9de00674c90cffd919b38c97f107df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:55 +0000
Subject: [PATCH 053/118] fix: Vector.addAll(list) inserted at the front
 instead of appending

---
 library/Java/Util/Vector/Vector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/Java/Util/Vector/Vector.hpp b/library/Java/Util/Vector/Vector.hpp
index bef346a..ce843a3 100755
--- a/library/Java/Util/Vector/Vector.hpp
+++ b/library/Java/Util/Vector/Vector.hpp
@@ -156,7 +156,7 @@ namespace Java {
              * @return boolean
              */
             boolean addAll(const std::initializer_list<E> &list) {
-                return this->addAll(0, list);
+                return this->addAll(this->size(), list);
             }
 
             /**
-- 
2.43.0


From 96b76e590c478bd0c0f2df67adaa3c5d277e13f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:55 +0000
Subject: [PATCH 054/118] fix: Vector.lastIndexOf threw on an empty Vector,
 remove(Object) crashed on an object of another class

---
 library/Java/Util/Vector/Vector.hpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/library/Java/Util/Vector/Vector.hpp b/library/Java/Util/Vector/Vector.hpp
index ce843a3..fd5aa28 100755
--- a/library/Java/Util/Vector/Vector.hpp
+++ b/library/Java/Util/Vector/Vector.hpp
@@ -444,6 +444,9 @@ namespace Java {
              */
             int lastIndexOf(const E &element) const {
                 int maxIndex = (int) this->original.size() - 1;
+                if (maxIndex < 0) {
+                    return -1;
+                }
                 return this->lastIndexOf(element, maxIndex);
             }
 
@@ -513,6 +516,9 @@ namespace Java {
              */
             boolean remove(const Object &element) {
                 const E *referenceToElement = dynamic_cast<const E *>(&element);
+                if (referenceToElement == nullptr) {
+                    return false;
+                }
                 int index;
                 for (index = 0; index < this->original.size(); index++) {
                     if ((*referenceToElement) == this->original[index]) {
@@ -889,15 +895,15 @@ namespace Java {
              * @return Vector<E>
              */
             Vector<E> &operator=(const Vector<E> &target) {
+                if (this == &target) {
+                    return *this;
+                }
                 this->clear();
                 this->ensureCapacity(target.size());
                 const E *targetData = target.original.data();
                 int index;
                 for (index = 0; index < target.size(); index++) {
                     this->original.push_back(targetData[index]);
-                if (this == &target) {
-                    return *this;
-                }
                 }
                 return *this;
             }
-- 
2.43.0


From 793ea64dc5c11a89772be055d359b78047e88860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:55 +0000
Subject: [PATCH 055/118] fix: HashMap.put and putAll kept the old value of a
 key

---
 library/Java/Util/HashMap/HashMap.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/library/Java/Util/HashMap/HashMap.hpp b/library/Java/Util/HashMap/HashMap.hpp
index 16e5450..8a1cbb2 100755
--- a/library/Java/Util/HashMap/HashMap.hpp
+++ b/library/Java/Util/HashMap/HashMap.hpp
@@ -400,7 +400,10 @@ namespace Java {
 			 * @param value
 			 */
 			void put(const K &key, const V &value) {
-				this->original.insert(std::pair<K, V>(key, value));
+				auto const inserted = this->original.insert(std::pair<K, V>(key, value));
+				if (!inserted.second) {
+					inserted.first->second = value;
+				}
 			}
 
 			/**
-- 
2.43.0


From d222bc38ba4f7496891c27a7cb8e31d569da35e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:56 +0000
Subject: [PATCH 056/118] fix: HashMap.equals took a missing key for one with a
 default value

---
 library/Java/Util/HashMap/HashMap.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/library/Java/Util/HashMap/HashMap.hpp b/library/Java/Util/HashMap/HashMap.hpp
index 8a1cbb2..bb5403e 100755
--- a/library/Java/Util/HashMap/HashMap.hpp
+++ b/library/Java/Util/HashMap/HashMap.hpp
@@ -123,8 +123,9 @@ namespace Java {
 				}
 
 				for (var const &thisElement : this->original) {
-					V anotherValue = anotherHashMap.get(thisElement.first);
-					if (thisElement.second != anotherValue) {
+					auto const anotherElement = anotherHashMap.original.find(thisElement.first);
+					if (anotherElement == anotherHashMap.original.end()
+					    || thisElement.second != anotherElement->second) {
 						return false;
 					}
 				}
-- 
2.43.0


From 3cdcf5ab77eebd764d9febca1dea96c08b737d48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:56 +0000
Subject: [PATCH 057/118] fix: HashMap returned an uninitialised value for a
 missing key of a primitive type

---
 library/Java/Util/HashMap/HashMap.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/library/Java/Util/HashMap/HashMap.hpp b/library/Java/Util/HashMap/HashMap.hpp
index bb5403e..0dda25e 100755
--- a/library/Java/Util/HashMap/HashMap.hpp
+++ b/library/Java/Util/HashMap/HashMap.hpp
@@ -352,7 +352,7 @@ namespace Java {
 				if (iteratorToString == this->original.end()) {
 					// Default value if could not found
 					// Prevent null pointer reference
-					V value;
+					V value = V();
 				    return value;
 				}
 				return iteratorToString->second;
@@ -371,7 +371,7 @@ namespace Java {
 			 * 							for the key
 			 */
 			V getOrDefault(const K &key, const V &defaultValue) const {
-				V result;
+				V result = V();
 				auto const iteratorToString = this->original.find(key);
 
 				if (iteratorToString == this->original.end()) {
@@ -433,7 +433,7 @@ namespace Java {
 			 * 					if the implementation supports null values.)
 			 */
 			V putIfAbsent(const K &key, const V &value) {
-				V result;
+				V result = V();
 				auto const iteratorFind = this->original.find(key);
 
 				if (iteratorFind == this->original.end()) {
@@ -457,7 +457,7 @@ namespace Java {
 			 * 					previously associated null with key.)
 			 */
 			V remove(const K &key) {
-				V result;
+				V result = V();
 				auto const iteratorToString = this->original.find(key);
 
 				if (iteratorToString == this->original.end()) {
@@ -507,7 +507,7 @@ namespace Java {
 			 * 					if the implementation supports null values.)
 			 */
 			V replace(const K &key, const V &value) {
-				V result;
+				V result = V();
 				auto const iteratorToString = this->original.find(key);
 
 				if (iteratorToString == this->original.end()) {
@@ -535,7 +535,7 @@ namespace Java {
 			boolean replace(const K &key,
 			                const V &oldValue,
 			                const V &newValue) {
-				V result;
+				V result = V();
 				auto const iteratorToString = this->original.find(key);
 
 				if (iteratorToString == this->original.end()
-- 
2.43.0


From c29e3a19729f0e0dbf6082a4c8bd292e2de6c9e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:56 +0000
Subject: [PATCH 058/118] fix: PriorityQueue.remove left the remaining elements
 out of order

---
 library/Java/Util/PriorityQueue/PriorityQueue.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/library/Java/Util/PriorityQueue/PriorityQueue.hpp b/library/Java/Util/PriorityQueue/PriorityQueue.hpp
index 1a5757b..7f0a7b9 100755
--- a/library/Java/Util/PriorityQueue/PriorityQueue.hpp
+++ b/library/Java/Util/PriorityQueue/PriorityQueue.hpp
@@ -229,6 +229,7 @@ namespace Java {
 								return true;
 							}
 							return false;
+								std::make_heap(this->original.begin(), this->original.end());
 						}
 						
 						/**
-- 
2.43.0


From 1ae9ab2159133a5e8f0d0f0ccf56799ce272a687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:56 +0000
Subject: [PATCH 059/118] fix: PriorityQueue.poll and peek of an empty queue
 were undefined

---
 library/Java/Util/PriorityQueue/PriorityQueue.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/library/Java/Util/PriorityQueue/PriorityQueue.hpp b/library/Java/Util/PriorityQueue/PriorityQueue.hpp
index 7f0a7b9..d62cdc2 100755
--- a/library/Java/Util/PriorityQueue/PriorityQueue.hpp
+++ b/library/Java/Util/PriorityQueue/PriorityQueue.hpp
@@ -196,7 +196,7 @@ namespace Java {
 						 * @return E
 						 */
 						E peek() const {
-							E defaultOfE;
+							E defaultOfE = E();
 							if (this->original.empty()) {
 								return defaultOfE;
 							}
@@ -210,6 +210,9 @@ namespace Java {
 						 */
 						E poll() {
 							E result = this->peek();
+							if (this->original.empty()) {
+								return result;
+							}
 							std::pop_heap(this->original.begin(), this->original.end());
 							this->original.pop_back();
 							return result;
@@ -226,10 +229,10 @@ namespace Java {
 							targetIterator = std::find(this->original.begin(), this->original.end(), target);
 							if (targetIterator != this->original.end()) {
 								this->original.erase(targetIterator);
+								std::make_heap(this->original.begin(), this->original.end());
 								return true;
 							}
 							return false;
-								std::make_heap(this->original.begin(), this->original.end());
 						}
 						
 						/**
@@ -285,7 +288,7 @@ namespace Java {
 							}
 							// Add "null" terminator (but must use default value).
 							if (anArray.length > originalSize) {
-								E defaultOfE;
+								E defaultOfE = E();
 								anArray[ indexOfArray ] = defaultOfE;
 							}
 							return anArray;
-- 
2.43.0


From 5f0d793b0b7e707c694250ce7c605c9f8f98518a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:57 +0000
Subject: [PATCH 060/118] fix: Set.add, contains and remove did not tell
 whether the element was there, remove did not remove

---
 library/Java/Util/Set/Set.hpp | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/library/Java/Util/Set/Set.hpp b/library/Java/Util/Set/Set.hpp
index ee73525..a8fbf00 100755
--- a/library/Java/Util/Set/Set.hpp
+++ b/library/Java/Util/Set/Set.hpp
@@ -76,11 +76,7 @@ namespace Java {
 						 * @return boolean
 						 */
 						boolean add(const E &e) {
-							auto insertResult = this->original.insert(e);
-							if (insertResult.first != this->original.end()) {
-								return true;
-							}
-							return false;
+							return this->original.insert(e).second;
 						}
 						
 						/**
@@ -109,9 +105,8 @@ namespace Java {
 						 * @param o
 						 * @return
 						 */
-						boolean contains(Object o) {
-							// TODO - loint@foodtiny.com
-							return true;
+						boolean contains(const E &o) const {
+							return this->original.find(o) != this->original.end();
 						}
 						
 						/**
@@ -169,8 +164,8 @@ namespace Java {
 						 * @param o
 						 * @return boolean
 						 */
-						boolean remove(Object o) {
-							return true;
+						boolean remove(const E &o) {
+							return this->original.erase(o) != 0;
 						}
 						
 						/**
-- 
2.43.0


From ade405e0f0290e17650c42bd160dcc96a54847e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:57 +0000
Subject: [PATCH 061/118] fix: HashMap entry setValue returned nothing

---
 library/Java/Util/Map/Map.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/library/Java/Util/Map/Map.hpp b/library/Java/Util/Map/Map.hpp
index f5da57b..80391b1 100755
--- a/library/Java/Util/Map/Map.hpp
+++ b/library/Java/Util/Map/Map.hpp
@@ -164,7 +164,9 @@ namespace Java {
 								 * @return V
 								 */
 								V setValue(V value) {
+									V replaced = this->value;
 									this->value = value;
+									return replaced;
 								}
 								
 								boolean operator<(const Map<K, V>::Entry &target) const {
-- 
2.43.0


From fbba158d8d2b85b9bf963728d1fe0cbe688e189f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:02 +0000
Subject: [PATCH 062/118] fix: BitSet.flip of a range flipped the word after a
 range ending at a word boundary

---
 library/Java/Util/BitSet/BitSet.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/Java/Util/BitSet/BitSet.cpp b/library/Java/Util/BitSet/BitSet.cpp
index d144681..b40b4df 100755
--- a/library/Java/Util/BitSet/BitSet.cpp
+++ b/library/Java/Util/BitSet/BitSet.cpp
@@ -333,7 +333,7 @@ void BitSet::flip(int fromIndex, int toIndex) {
     }
 
     int startWordIndex = this->wordIndex(fromIndex);
-    int endWordIndex = this->wordIndex(toIndex);
+    int endWordIndex = this->wordIndex(toIndex - 1);
     this->expandTo(endWordIndex);
 
     long firstWordMask = WORD_MASK << fromIndex;
-- 
2.43.0


From 28306bd721c23af6860f1145f788a96c20a5788b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:02 +0000
Subject: [PATCH 063/118] fix: BitSet.intersects read past the words in use

---
 library/Java/Util/BitSet/BitSet.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/Java/Util/BitSet/BitSet.cpp b/library/Java/Util/BitSet/BitSet.cpp
index b40b4df..6d203db 100755
--- a/library/Java/Util/BitSet/BitSet.cpp
+++ b/library/Java/Util/BitSet/BitSet.cpp
@@ -437,7 +437,7 @@ int BitSet::hashCode() const {
 boolean BitSet::intersects(const BitSet &set) {
     int endWordIndex = Math::min(this->wordsInUse, set.wordsInUse);
     int index;
-    for (index = 0; index <= endWordIndex; ++index) {
+    for (index = 0; index < endWordIndex; ++index) {
         if ((this->words[index] & set.words[index]) != 0) {
             return true;
         }
-- 
2.43.0


From c80526a03e552b57daa901768fc2bd072ea1d6c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:03 +0000
Subject: [PATCH 064/118] fix: assigning a BitSet after toString freed its text
 twice

---
 library/Java/Util/BitSet/BitSet.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/library/Java/Util/BitSet/BitSet.cpp b/library/Java/Util/BitSet/BitSet.cpp
index 6d203db..aa4721f 100755
--- a/library/Java/Util/BitSet/BitSet.cpp
+++ b/library/Java/Util/BitSet/BitSet.cpp
@@ -114,6 +114,7 @@ void BitSet::trimToSize() {
 void BitSet::cleanUp() {
     if (this->backupForToString != nullptr) {
         free(this->backupForToString);
+        this->backupForToString = nullptr;
     }
 }
 
-- 
2.43.0


From e483b6682e4c040979010a5816a0b0d92fea1b65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:15 +0000
Subject: [PATCH 065/118] fix: Arrays.binarySearch missed elements of short
 ranges

---
 library/Java/Util/Arrays/Arrays.hpp | 30 ++++++++---------------------
 1 file changed, 8 insertions(+), 22 deletions(-)

diff --git a/library/Java/Util/Arrays/Arrays.hpp b/library/Java/Util/Arrays/Arrays.hpp
index e8e1184..8962098 100755
--- a/library/Java/Util/Arrays/Arrays.hpp
+++ b/library/Java/Util/Arrays/Arrays.hpp
@@ -175,7 +175,7 @@ namespace Java {
                                     int fromIndex,
                                     int toIndex,
                                     Type key) {
-                return BinarySearch(array, 0, toIndex, key);
+                return BinarySearch(array, fromIndex, toIndex, key);
             }
 
             template<typename Type>
@@ -190,7 +190,7 @@ namespace Java {
                                     int fromIndex,
                                     int toIndex,
                                     Type key) {
-                return BinarySearch(array, 0, toIndex, key);
+                return BinarySearch(array, fromIndex, toIndex, key);
             }
 
             COPY_OF(boolean);
@@ -431,17 +431,10 @@ namespace Java {
                     } else {
                         left = mid + 1;
                     }
+                }
 
-                    if (left == right - 1) { /// Get very first left postition in array
-                        if (array[left] == key) {
-                            return left;
-                        }
-                        if (array[right] == key) {
-                            return right;
-                        }
-
-                        break;
-                    }
+                if (array[left] == key) { /// Get very first left postition in array
+                    return left;
                 }
 
                 return -1;
@@ -470,17 +463,10 @@ namespace Java {
                     } else {
                         left = mid + 1;
                     }
+                }
 
-                    if (left == right - 1) { /// Get very first left postition in array
-                        if (array[left] == key) {
-                            return left;
-                        }
-                        if (array[right] == key) {
-                            return right;
-                        }
-
-                        break;
-                    }
+                if (array[left] == key) { /// Get very first left postition in array
+                    return left;
                 }
 
                 return -1;
-- 
2.43.0


From 8dcc4a7fac6617cbed44c4c58d13a4a5bc28881e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:15 +0000
Subject: [PATCH 066/118] fix: Arrays.copyOfRange gave nothing for a range up
 to the end

---
 library/Java/Util/Arrays/Arrays.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/Java/Util/Arrays/Arrays.hpp b/library/Java/Util/Arrays/Arrays.hpp
index 8962098..ceab14a 100755
--- a/library/Java/Util/Arrays/Arrays.hpp
+++ b/library/Java/Util/Arrays/Arrays.hpp
@@ -590,7 +590,7 @@ namespace Java {
                 if (fromIndex < 0
                     || toIndex < 0
                     || toIndex < fromIndex
-                    || toIndex > original.length - 1) {
+                    || toIndex > original.length) {
                     return result;
                 }
 
-- 
2.43.0


From f86325e4bbc6eda1a3feafd79d28672b493b4671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:16 +0000
Subject: [PATCH 067/118] fix: Base64 MIME decoder looked up its own input
 instead of the alphabet

---
 library/Java/Util/Base64/Base64.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/Java/Util/Base64/Base64.cpp b/library/Java/Util/Base64/Base64.cpp
index f6aa555..a322707 100755
--- a/library/Java/Util/Base64/Base64.cpp
+++ b/library/Java/Util/Base64/Base64.cpp
@@ -323,7 +323,7 @@ int Base64::Decoder::outLength(const Array<byte> &source,
 				length -= sourceEndPosition - sourcePosition + 1;
 				break;
 			}
-			currentByteDecoded = source[ currentByte ];
+			currentByteDecoded = fromBase64Table[ currentByte ];
 			if (currentByteDecoded == -1) {
 				++nonAlphabet;
 			}
-- 
2.43.0


From 6457780959a6928aec033d0d589d07e0606d1663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:16 +0000
Subject: [PATCH 068/118] fix: Base64 decoder's message about a misplaced byte
 read past a literal

---
 library/Java/Util/Base64/Base64.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/library/Java/Util/Base64/Base64.cpp b/library/Java/Util/Base64/Base64.cpp
index a322707..8501f9b 100755
--- a/library/Java/Util/Base64/Base64.cpp
+++ b/library/Java/Util/Base64/Base64.cpp
@@ -416,8 +416,8 @@ int Base64::Decoder::decoding(const Array<byte> &source, int offset, int end,
 			continue;
 		}
 		throw InterruptedException(
-			"Input byte array has incorrect ending byte at " +
-			sourcePosition);
+			String("Input byte array has incorrect ending byte at ") +
+			String::valueOf(sourcePosition));
 	}
 	
 	return destinationPosition;
-- 
2.43.0


From 7b3fc52ccab13526d9a752daabc0803d8205d8b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:16 +0000
Subject: [PATCH 069/118] fix: Base64 MIME encoder without lines wrote
 separators over the text

---
 library/Java/Util/Base64/Base64.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/Java/Util/Base64/Base64.cpp b/library/Java/Util/Base64/Base64.cpp
index 8501f9b..61f6e95 100755
--- a/library/Java/Util/Base64/Base64.cpp
+++ b/library/Java/Util/Base64/Base64.cpp
@@ -186,7 +186,7 @@ int Base64::Encoder::encoding(const Array<byte> &source, int offset, int end,
 			sourcePosition = chunksOfSourceWillBeEncodedPausePosition;
 			
 			// Add bytes of newline to current base64 line (append new line).
-			if (encodedLength == lineMax && sourcePosition < end) {
+			if (lineMax > 0 && encodedLength == lineMax && sourcePosition < end) {
 				for (byte byteOfNewLine : this->newLine) {
 					destination[ destinationPosition++ ] = byteOfNewLine;
 				}
-- 
2.43.0


From ebaed8b79a2d9089c0c5d8b4863fb3df372b503f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:16 +0000
Subject: [PATCH 070/118] fix: URLEncoder and URLDecoder dropped everything
 after a NUL character

---
 library/Java/Net/URLDecoder/URLDecoder.cpp | 2 +-
 library/Java/Net/URLEncoder/URLEncoder.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/library/Java/Net/URLDecoder/URLDecoder.cpp b/library/Java/Net/URLDecoder/URLDecoder.cpp
index 798a240..d7c59ec 100755
--- a/library/Java/Net/URLDecoder/URLDecoder.cpp
+++ b/library/Java/Net/URLDecoder/URLDecoder.cpp
@@ -61,7 +61,7 @@ String URLDecoder::decode(const String &source, const String &encoding) {
     // TODO(truongchauhien): String class need to be refactoring.
     auto &referenceToEncoding = const_cast<String &>(encoding);
     if (referenceToEncoding.toUpperCase() == "UTF-8") {
-        String decodedString = urlDecode(source.toCharPointer());
+        String decodedString = urlDecode(source);
         return decodedString;
     }
     // TODO(truongchauhien): Need "java.nio.charset.Charset" class and "Array<byte> getBytes(const Charset &) method".
diff --git a/library/Java/Net/URLEncoder/URLEncoder.cpp b/library/Java/Net/URLEncoder/URLEncoder.cpp
index 879a19a..cdd8dd2 100755
--- a/library/Java/Net/URLEncoder/URLEncoder.cpp
+++ b/library/Java/Net/URLEncoder/URLEncoder.cpp
@@ -63,7 +63,7 @@ String URLEncoder::encode(const String &source, const String &encoding) {
     // TODO(truongchauhien): String class need to be refactoring.
     auto &referenceToEncoding = const_cast<String &>(encoding);
     if (referenceToEncoding.toUpperCase() == "UTF-8") {
-        String encodedString = urlEncode(source.toCharPointer());
+        String encodedString = urlEncode(source);
         return encodedString;
     }
     // TODO(truongchauhien): Need "java.nio.charset.Charset" class and "Array<byte> getBytes(const Charset &) method".
-- 
2.43.0


From 2c58c7ddf9a42a100b79f17b27d40a24cbbb5ff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:00 +0000
Subject: [PATCH 071/118] fix: MessageDigest gave another digest when asked
 twice

---
 library/Java/Security/MessageDigest/MD5MessageDigest.cpp  | 5 +++++
 library/Java/Security/MessageDigest/SHA1MessageDigest.cpp | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/library/Java/Security/MessageDigest/MD5MessageDigest.cpp b/library/Java/Security/MessageDigest/MD5MessageDigest.cpp
index 0ed6720..38dfb88 100644
--- a/library/Java/Security/MessageDigest/MD5MessageDigest.cpp
+++ b/library/Java/Security/MessageDigest/MD5MessageDigest.cpp
@@ -43,6 +43,7 @@ int MD5MessageDigest::engineDigest(byte *buffer, int len) {
 
     if (!this->isFinished) {
         md5_finish(&this->state, this->hash);
+        this->isFinished = true;
     }
 
     memcpy(buffer, this->hash, sizeof(this->hash));
@@ -60,5 +61,9 @@ void MD5MessageDigest::engineReset() {
 }
 
 void MD5MessageDigest::engineUpdate(const byte *input, int len) {
+    if (this->isFinished) {
+        engineReset();
+    }
+
     md5_append(&this->state, (const md5_byte_t*)input, len);
 }
diff --git a/library/Java/Security/MessageDigest/SHA1MessageDigest.cpp b/library/Java/Security/MessageDigest/SHA1MessageDigest.cpp
index 1c2f41c..99212fe 100644
--- a/library/Java/Security/MessageDigest/SHA1MessageDigest.cpp
+++ b/library/Java/Security/MessageDigest/SHA1MessageDigest.cpp
@@ -21,6 +21,7 @@ int SHA1MessageDigest::engineDigest(byte *buffer, int len) {
 
     if (!this->isFinished) {
         SHA1_Final(this->hash, &this->state);
+        this->isFinished = true;
     }
 
     memcpy(buffer, this->hash, sizeof(this->hash));
@@ -38,5 +39,9 @@ void SHA1MessageDigest::engineReset() {
 }
 
 void SHA1MessageDigest::engineUpdate(const byte *input, int len) {
+    if (this->isFinished) {
+        engineReset();
+    }
+
     SHA1_Update(&this->state, input, len);
 }
-- 
2.43.0


From d8edc6f5a9371ebecc23071b83002675309bb889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:20 +0000
Subject: [PATCH 072/118] fix: a copied MessageDigest freed its state twice

---
 library/Java/Security/MessageDigest/MessageDigest.cpp | 5 +----
 library/Java/Security/MessageDigest/MessageDigest.hpp | 3 ++-
 2 files changed, 3 insertions(+), 5 deletions(-)

diff --git a/library/Java/Security/MessageDigest/MessageDigest.cpp b/library/Java/Security/MessageDigest/MessageDigest.cpp
index ef3f712..7031141 100644
--- a/library/Java/Security/MessageDigest/MessageDigest.cpp
+++ b/library/Java/Security/MessageDigest/MessageDigest.cpp
@@ -45,9 +45,6 @@ MessageDigest MessageDigest::getInstance(const String &algorithm) {
 }
 
 MessageDigest::~MessageDigest() {
-    if (spi) {
-        delete spi;
-    }
 }
 
 String MessageDigest::getAlgorithm() {
@@ -80,7 +77,7 @@ void MessageDigest::update(const byte input[], int len) {
 }
 
 MessageDigest::MessageDigest(MessageDigestSpi *spi, const String &algorithm) {
-    this->spi = spi;
+    this->spi = std::shared_ptr<MessageDigestSpi>(spi);
     this->algorithm = algorithm;
 }
 
diff --git a/library/Java/Security/MessageDigest/MessageDigest.hpp b/library/Java/Security/MessageDigest/MessageDigest.hpp
index 6d27ca5..697d3a1 100644
--- a/library/Java/Security/MessageDigest/MessageDigest.hpp
+++ b/library/Java/Security/MessageDigest/MessageDigest.hpp
@@ -27,6 +27,7 @@
 #ifndef NATIVE_JAVA_SECURITY_MESSAGEDIGEST_HPP_
 #define NATIVE_JAVA_SECURITY_MESSAGEDIGEST_HPP_
 
+#include <memory>
 #include "../../Lang.hpp"
 #include "MessageDigestSpi.hpp"
 
@@ -51,7 +52,7 @@ namespace Java {
             void update(const byte input[], int len);
 
         private:
-            MessageDigestSpi* spi;
+            std::shared_ptr<MessageDigestSpi> spi;
             String algorithm;
 
             MessageDigest(MessageDigestSpi* spi, const String &algorithm);
-- 
2.43.0


From 265062a0caff595560d770000f091f87273e3137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:21 +0000
Subject: [PATCH 073/118] fix: UUID.variant shifted the sign in

---
 library/Java/Util/UUID/UUID.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/library/Java/Util/UUID/UUID.cpp b/library/Java/Util/UUID/UUID.cpp
index d904e20..4f1e203 100755
--- a/library/Java/Util/UUID/UUID.cpp
+++ b/library/Java/Util/UUID/UUID.cpp
@@ -215,7 +215,8 @@ String UUID::toString() const {
  * @return int
  */
 int UUID::variant() const {
-	return (int) (( this->leastSigBits >> ( 64 - ( this->leastSigBits >> 62 ))) & ( this->leastSigBits >> 63 ));
+	unsigned long bits = (unsigned long) this->leastSigBits;
+	return (int) (( bits >> (( 64 - ( bits >> 62 )) & 63 )) & (unsigned long) ( this->leastSigBits >> 63 ));
 }
 
 /**
-- 
2.43.0


From 1dba4e240efb6d2a96bb7efbfac30852f4a4fd57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:21 +0000
Subject: [PATCH 074/118] fix: UUID() left its timestamp uninitialised

---
 library/Java/Util/UUID/UUID.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/library/Java/Util/UUID/UUID.cpp b/library/Java/Util/UUID/UUID.cpp
index 4f1e203..ec88455 100755
--- a/library/Java/Util/UUID/UUID.cpp
+++ b/library/Java/Util/UUID/UUID.cpp
@@ -34,6 +34,7 @@
 UUID::UUID() {
 	this->mostSigBits = 0;
 	this->leastSigBits = 0;
+	this->timestamp = time(0);
 }
 
 /**
-- 
2.43.0


From 0e30582d9fcf34224f7ff4d36b4593496dcedc27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:21 +0000
Subject: [PATCH 075/118] fix: UUID.timeUUID repeated an id when eleven were
 made in a microsecond

---
 library/Java/Util/UUID/libuuid/gen_uuid.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/Java/Util/UUID/libuuid/gen_uuid.c b/library/Java/Util/UUID/libuuid/gen_uuid.c
index 3c519f2..dd6f631 100755
--- a/library/Java/Util/UUID/libuuid/gen_uuid.c
+++ b/library/Java/Util/UUID/libuuid/gen_uuid.c
@@ -255,7 +255,7 @@ static int get_node_id(unsigned char *node_id)
 }
 
 /* Assume that the gettimeofday() has microsecond granularity */
-#define MAX_ADJUSTMENT 10
+#define MAX_ADJUSTMENT 9
 
 /*
  * Get clock from global sequence clock counter.
-- 
2.43.0


From 092c80ed1f572c21d887e24580d97381c7475589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:44 +0000
Subject: [PATCH 076/118] fix: MessageDigest deleted its state through a class
 without a virtual destructor

---
 library/Java/Security/MessageDigest/MessageDigestSpi.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/library/Java/Security/MessageDigest/MessageDigestSpi.hpp b/library/Java/Security/MessageDigest/MessageDigestSpi.hpp
index 635345f..de22555 100644
--- a/library/Java/Security/MessageDigest/MessageDigestSpi.hpp
+++ b/library/Java/Security/MessageDigest/MessageDigestSpi.hpp
@@ -33,6 +33,7 @@ namespace Java {
     namespace Security {
         class MessageDigestSpi : public Object {
         public:
+            virtual ~MessageDigestSpi() {}
             virtual int engineDigest(byte buffer[], int len) = 0;
             virtual int engineGetDigestLength() = 0;
             virtual void engineReset() = 0;
-- 
2.43.0


From f05398f6ba7bbb571911377df52313e345d5f79e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:45 +0000
Subject: [PATCH 077/118] fix: MediaType.isCompatible depended on the order and
 took any type for one with another suffix

---
 library/Javax/Ws/Rs/Core/MediaType.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/library/Javax/Ws/Rs/Core/MediaType.cpp b/library/Javax/Ws/Rs/Core/MediaType.cpp
index 43748a5..57dd970 100644
--- a/library/Javax/Ws/Rs/Core/MediaType.cpp
+++ b/library/Javax/Ws/Rs/Core/MediaType.cpp
@@ -117,7 +117,8 @@ boolean MediaType::isCompatible(MediaType other) {
         return false;
     }
 
-    if (this->isWildcardType() || other.isWildcardSubtype()) {
+    if (this->isWildcardType() || other.isWildcardType()
+        || this->subtype.equals(MEDIA_TYPE_WILDCARD) || other.subtype.equals(MEDIA_TYPE_WILDCARD)) {
         return true;
     }
 
-- 
2.43.0


From 6759cac86cb8771ecc84d45386a514319687aa08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:46 +0000
Subject: [PATCH 078/118] fix: MediaType's type constants were declared but not
 defined

---
 library/Javax/Ws/Rs/Core/MediaType.cpp | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/library/Javax/Ws/Rs/Core/MediaType.cpp b/library/Javax/Ws/Rs/Core/MediaType.cpp
index 57dd970..e1ee3cf 100644
--- a/library/Javax/Ws/Rs/Core/MediaType.cpp
+++ b/library/Javax/Ws/Rs/Core/MediaType.cpp
@@ -46,18 +46,18 @@ const String MediaType::TEXT_PLAIN                    = "text/plain";
 const String MediaType::TEXT_XML                      = "text/xml";
 const String MediaType::WILDCARD                      = "*/*";
 
-const MediaType APPLICATION_ATOM_XML_TYPE             = MediaType("application","atom+xml");
-const MediaType APPLICATION_FORM_URLENCODED_TYPE      = MediaType("application","x-www-form-urlencoded");
-const MediaType APPLICATION_JSON_TYPE                 = MediaType("application","json");
-const MediaType APPLICATION_OCTET_STREAM_TYPE         = MediaType("application","octet-stream");
-const MediaType APPLICATION_SVG_XML_TYPE              = MediaType("application","svg+xml");
-const MediaType APPLICATION_XHTML_XML_TYPE            = MediaType("application","xhtml+xml");
-const MediaType APPLICATION_XML_TYPE                  = MediaType("application","xml");
-const MediaType MULTIPART_FORM_DATA_TYPE              = MediaType("multipart","form-data");
-const MediaType TEXT_HTML_TYPE                        = MediaType("text","html");
-const MediaType TEXT_PLAIN_TYPE                       = MediaType("text","plain");
-const MediaType TEXT_XML_TYPE                         = MediaType("text","xml");
-const MediaType WILDCARD_TYPE                         = MediaType();
+const MediaType MediaType::APPLICATION_ATOM_XML_TYPE             = MediaType("application","atom+xml");
+const MediaType MediaType::APPLICATION_FORM_URLENCODED_TYPE      = MediaType("application","x-www-form-urlencoded");
+const MediaType MediaType::APPLICATION_JSON_TYPE                 = MediaType("application","json");
+const MediaType MediaType::APPLICATION_OCTET_STREAM_TYPE         = MediaType("application","octet-stream");
+const MediaType MediaType::APPLICATION_SVG_XML_TYPE              = MediaType("application","svg+xml");
+const MediaType MediaType::APPLICATION_XHTML_XML_TYPE            = MediaType("application","xhtml+xml");
+const MediaType MediaType::APPLICATION_XML_TYPE                  = MediaType("application","xml");
+const MediaType MediaType::MULTIPART_FORM_DATA_TYPE              = MediaType("multipart","form-data");
+const MediaType MediaType::TEXT_HTML_TYPE                        = MediaType("text","html");
+const MediaType MediaType::TEXT_PLAIN_TYPE                       = MediaType("text","plain");
+const MediaType MediaType::TEXT_XML_TYPE                         = MediaType("text","xml");
+const MediaType MediaType::WILDCARD_TYPE                         = MediaType();
 
 MediaType::MediaType() {
     this->type = MEDIA_TYPE_WILDCARD;
-- 
2.43.0


From 36359dde5684b54bec05c0bd6d95029b6748c5e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:46 +0000
Subject: [PATCH 079/118] fix: Random.nextString wrote behind its array

---
 library/Java/Util/Random/Random.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/Java/Util/Random/Random.cpp b/library/Java/Util/Random/Random.cpp
index f92defb..dfc3e2f 100755
--- a/library/Java/Util/Random/Random.cpp
+++ b/library/Java/Util/Random/Random.cpp
@@ -265,7 +265,7 @@ void Random::setSeed(long seed) {
  * @return
  */
 String Random::nextString(int length) {
-	char charArray[length];
+	char charArray[length + 1];
 	int charListLength = 62;
 	int index;
 	for (index = 0; index < length; ++index) {
-- 
2.43.0


From e998aad1c47135961a81d7e8dd29c2e7e2380a96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:46 +0000
Subject: [PATCH 080/118] fix: Random.nextBytes appended to the array instead
 of filling it

---
 library/Java/Util/Random/Random.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/Java/Util/Random/Random.cpp b/library/Java/Util/Random/Random.cpp
index dfc3e2f..259245e 100755
--- a/library/Java/Util/Random/Random.cpp
+++ b/library/Java/Util/Random/Random.cpp
@@ -191,7 +191,7 @@ void Random::nextBytes(Array<byte> *bytes) {
 		int randomNumber = nextInt();
 		//TODO change to BYTE::SIZE
 		randomNumber >>= 8;
-		bytes->push((byte) randomNumber);
+		(*bytes)[index] = (byte) randomNumber;
 	}
 }
 
-- 
2.43.0


From b7b07047ad0e4eb49eeebb531af586538af02c1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:47 +0000
Subject: [PATCH 081/118] fix: a copy of a Random lost its next Gaussian number

---
 library/Java/Util/Random/Random.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/library/Java/Util/Random/Random.cpp b/library/Java/Util/Random/Random.cpp
index 259245e..f02b3f6 100755
--- a/library/Java/Util/Random/Random.cpp
+++ b/library/Java/Util/Random/Random.cpp
@@ -115,6 +115,8 @@ void Random::resetSeed(long seedVal) {
  */
 Random::Random(const Random &other) {
 	this->seed.store(other.seed.load());
+	this->haveNextGaussianNumber = other.haveNextGaussianNumber;
+	this->nextGaussianNumber = other.nextGaussianNumber;
 }
 
 /**
-- 
2.43.0


From 66d4f60c0f08b7f0c20386b5309385d71630a081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:00 +0000
Subject: [PATCH 082/118] fix: all Dates shared the fields of the one used last

---
 library/Java/Util/Date/Date.cpp | 42 +++++++++++++++++----------------
 library/Java/Util/Date/Date.hpp |  4 ++--
 2 files changed, 24 insertions(+), 22 deletions(-)

diff --git a/library/Java/Util/Date/Date.cpp b/library/Java/Util/Date/Date.cpp
index 93b28b2..f598544 100755
--- a/library/Java/Util/Date/Date.cpp
+++ b/library/Java/Util/Date/Date.cpp
@@ -67,27 +67,27 @@ Date::~Date() {
 }
 
 void Date::setDate(int date) {
-    this->localTimer->tm_mday = date;
+    this->localTimer.tm_mday = date;
     this->updateDateStatus();
 }
 
 void Date::setHours(int hours) {
-    this->localTimer->tm_hour = hours;
+    this->localTimer.tm_hour = hours;
     this->updateDateStatus();
 }
 
 void Date::setMinutes(int minutes) {
-    this->localTimer->tm_min = minutes;
+    this->localTimer.tm_min = minutes;
     this->updateDateStatus();
 }
 
 void Date::setMonth(int month) {
-    this->localTimer->tm_mon = month;
+    this->localTimer.tm_mon = month;
     this->updateDateStatus();
 }
 
 void Date::setSeconds(int seconds) {
-    this->localTimer->tm_sec = seconds;
+    this->localTimer.tm_sec = seconds;
     this->updateDateStatus();
 }
 
@@ -97,36 +97,36 @@ void Date::setTime(long time) {
 
 void Date::setYear(int year) {
     // LocalTimer just keep year since 1900
-    this->localTimer->tm_year = year;
+    this->localTimer.tm_year = year;
     this->updateDateStatus();
 }
 
 int Date::getDate() const {
-    return this->localTimer->tm_mday;
+    return this->localTimer.tm_mday;
 }
 
 int Date::getDay() const {
-    return this->localTimer->tm_wday;
+    return this->localTimer.tm_wday;
 }
 
 int Date::getHours() const {
-    return this->localTimer->tm_hour;
+    return this->localTimer.tm_hour;
 }
 
 int Date::getMinutes() const {
-    return this->localTimer->tm_min;
+    return this->localTimer.tm_min;
 }
 
 int Date::getMonth() const {
-    return this->localTimer->tm_mon;
+    return this->localTimer.tm_mon;
 }
 
 int Date::getSeconds() const {
-    return this->localTimer->tm_sec;
+    return this->localTimer.tm_sec;
 }
 
 int Date::getYear() const {
-    return this->localTimer->tm_year;
+    return this->localTimer.tm_year;
 }
 
 long Date::getTime() const {
@@ -134,7 +134,7 @@ long Date::getTime() const {
 }
 
 int Date::getTimezoneOffset() const {
-    return (int) - (this->localTimer->tm_gmtoff / 60);
+    return (int) - (this->localTimer.tm_gmtoff / 60);
 }
 
 boolean Date::after(Date specifiedDate) const {
@@ -175,7 +175,7 @@ Date Date::clone() {
 
 String Date::toLocaleString() const {
     string pattern = (string) "%b %d, %Y %I:%M:%S %p";
-    return this->timeToString(pattern, this->localTimer);
+    return this->timeToString(pattern, &this->localTimer);
 }
 
 String Date::toGMTString() const {
@@ -487,7 +487,7 @@ String Date::getSequenceChar(const String &inputString, int &index) {
 
 void Date::updateDateStatus() {
     // Update changes
-    this->timer = mktime(this->localTimer);
+    this->timer = mktime(&this->localTimer);
 
     String pattern;
 
@@ -508,7 +508,7 @@ void Date::updateDateStatus() {
 #endif
 
     pattern = (string) "%a %b %d %T %Z %Y";
-    String convertResult = this->timeToString(pattern.toString(), this->localTimer);
+    String convertResult = this->timeToString(pattern.toString(), &this->localTimer);
     this->backUp = strdup(convertResult.toCharPointer());
 }
 
@@ -524,17 +524,19 @@ void Date::initializeDate(int year, int month, int date,
     localTimer.tm_sec = second;
 
     this->timer = mktime(&localTimer);
-    this->localTimer = localtime(&this->timer);
+    tzset();
+    localtime_r(&this->timer, &this->localTimer);
     this->updateDateStatus();
 }
 
 void Date::initializeDate(long timestamp) {
     time_t ts = timestamp;
-    this->localTimer = localtime(&ts);
+    tzset();
+    localtime_r(&ts, &this->localTimer);
     this->updateDateStatus();
 }
 
-String Date::timeToString(String pattern, tm *timeManagement) const {
+String Date::timeToString(String pattern, const tm *timeManagement) const {
     size_t size = 100;
 
     string holdResult = static_cast<string> (calloc(size, sizeof(char)));
diff --git a/library/Java/Util/Date/Date.hpp b/library/Java/Util/Date/Date.hpp
index d79abbe..7ef8e3d 100755
--- a/library/Java/Util/Date/Date.hpp
+++ b/library/Java/Util/Date/Date.hpp
@@ -41,7 +41,7 @@ namespace Java {
 				{
 				private:
 						long timer;
-						struct tm *localTimer;
+						struct tm localTimer;
 						string backUp = nullptr;
 				private:
 						/**
@@ -81,7 +81,7 @@ namespace Java {
 						 * @param timeManagement
 						 * @return String
 						 */
-						String timeToString(String pattern, tm *timeManagement) const;
+						String timeToString(String pattern, const tm *timeManagement) const;
 						
 						/**
 						 * Get the UTC time
-- 
2.43.0


From f0ca27bc436d7b03f0fde4e01d7edac3c3477052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:33 +0000
Subject: [PATCH 083/118] fix: Date was an hour off in daylight saving time

---
 library/Java/Util/Date/Date.cpp | 31 +++++++++++--------------------
 library/Java/Util/Date/Date.hpp |  7 -------
 2 files changed, 11 insertions(+), 27 deletions(-)

diff --git a/library/Java/Util/Date/Date.cpp b/library/Java/Util/Date/Date.cpp
index f598544..1cb97ea 100755
--- a/library/Java/Util/Date/Date.cpp
+++ b/library/Java/Util/Date/Date.cpp
@@ -68,26 +68,31 @@ Date::~Date() {
 
 void Date::setDate(int date) {
     this->localTimer.tm_mday = date;
+    this->localTimer.tm_isdst = -1;
     this->updateDateStatus();
 }
 
 void Date::setHours(int hours) {
     this->localTimer.tm_hour = hours;
+    this->localTimer.tm_isdst = -1;
     this->updateDateStatus();
 }
 
 void Date::setMinutes(int minutes) {
     this->localTimer.tm_min = minutes;
+    this->localTimer.tm_isdst = -1;
     this->updateDateStatus();
 }
 
 void Date::setMonth(int month) {
     this->localTimer.tm_mon = month;
+    this->localTimer.tm_isdst = -1;
     this->updateDateStatus();
 }
 
 void Date::setSeconds(int seconds) {
     this->localTimer.tm_sec = seconds;
+    this->localTimer.tm_isdst = -1;
     this->updateDateStatus();
 }
 
@@ -98,6 +103,7 @@ void Date::setTime(long time) {
 void Date::setYear(int year) {
     // LocalTimer just keep year since 1900
     this->localTimer.tm_year = year;
+    this->localTimer.tm_isdst = -1;
     this->updateDateStatus();
 }
 
@@ -413,30 +419,14 @@ long Date::parse(String inputString) {
     localTimer.tm_min = minute;
     localTimer.tm_sec = second;
 
-    long result = mktime(&localTimer);
+    localTimer.tm_isdst = -1;
 
-    // Add timeZoneOffset to result
     if (timeZoneOffset == -1) {
-        return result * 1000;
+        return mktime(&localTimer) * 1000;
     }
 
-    long offsetFromUTC = Date::getOffsetFromUTC();
-    result = (result + (timeZoneOffset * 60) - offsetFromUTC) ;
-    return result * 1000;
-}
-
-long Date::getOffsetFromUTC() {
-    long currentTime;
-    struct tm * timeInfo;
-    time(&currentTime);
-    timeInfo = gmtime (&currentTime);
-    time_t utc = mktime(timeInfo);
-    timeInfo = localtime(&currentTime);
-    time_t local = mktime(timeInfo);
-
-    // Get offset in hours from UTC
-    double offsetFromUTC = difftime(utc, local); // HOUR_IN_SECOND;
-    return (long) offsetFromUTC;
+    // Add timeZoneOffset to result
+    return (timegm(&localTimer) + timeZoneOffset * 60) * 1000;
 }
 
 int Date::getSequenceNumber(const String &inputString, int &index) {
@@ -522,6 +512,7 @@ void Date::initializeDate(int year, int month, int date,
     localTimer.tm_hour = hour;
     localTimer.tm_min = minute;
     localTimer.tm_sec = second;
+    localTimer.tm_isdst = -1;
 
     this->timer = mktime(&localTimer);
     tzset();
diff --git a/library/Java/Util/Date/Date.hpp b/library/Java/Util/Date/Date.hpp
index 7ef8e3d..c641c3e 100755
--- a/library/Java/Util/Date/Date.hpp
+++ b/library/Java/Util/Date/Date.hpp
@@ -118,13 +118,6 @@ namespace Java {
 						 * @return String with bracket and character inside it removed
 						 */
 						static String removeBracket(String inputString);
-						
-						/**
-						 * Get time offset in second from local time zone to UTC
-						 *
-						 * @return long time offset in seconds
-						 */
-						static long getOffsetFromUTC();
 				
 				public:
 						/**
-- 
2.43.0


From e0acf99f09d27be8f5b733516e8dc21b9b22a1d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:34 +0000
Subject: [PATCH 084/118] fix: Date.UTC and Date.toGMTString were wrong outside
 the UTC time zone

---
 library/Java/Util/Date/Date.cpp | 24 +++++++++++++-----------
 library/Java/Util/Date/Date.hpp |  8 --------
 2 files changed, 13 insertions(+), 19 deletions(-)

diff --git a/library/Java/Util/Date/Date.cpp b/library/Java/Util/Date/Date.cpp
index 1cb97ea..d726aad 100755
--- a/library/Java/Util/Date/Date.cpp
+++ b/library/Java/Util/Date/Date.cpp
@@ -170,8 +170,16 @@ String Date::toString() const{
 }
 
 long Date::UTC(int year, int month, int date, int hour, int minute, int second) {
-    Date tempDate = Date(year, month, date, hour, minute, second);
-    return Date::getUTCTime(tempDate.getTime());
+    tm utcTimer = { 0 };
+
+    utcTimer.tm_year = year;
+    utcTimer.tm_mon = month;
+    utcTimer.tm_mday = date;
+    utcTimer.tm_hour = hour;
+    utcTimer.tm_min = minute;
+    utcTimer.tm_sec = second;
+
+    return timegm(&utcTimer) * 1000;
 }
 
 Date Date::clone() {
@@ -187,10 +195,10 @@ String Date::toLocaleString() const {
 String Date::toGMTString() const {
     string pattern = (string) "%d %b %Y %T GMT";
 
-    long utcTime = getUTCTime(this->timer);
-    tm *utcTimer = localtime(&utcTime);
+    tm utcTimer = { 0 };
+    gmtime_r(&this->timer, &utcTimer);
 
-    return this->timeToString(pattern, utcTimer);
+    return this->timeToString(pattern, &utcTimer);
 }
 
 int Date::hashCode() const {
@@ -538,12 +546,6 @@ String Date::timeToString(String pattern, const tm *timeManagement) const {
     return result;
 }
 
-long Date::getUTCTime(long timer) {
-    tm tempTimer = {0};
-    tm *utcTimer = gmtime_r(&timer, &tempTimer);
-    return mktime(utcTimer);
-}
-
 boolean Date::equals(Date obj) const {
     return this->getTime() == obj.getTime();
 }
diff --git a/library/Java/Util/Date/Date.hpp b/library/Java/Util/Date/Date.hpp
index c641c3e..66a6b7d 100755
--- a/library/Java/Util/Date/Date.hpp
+++ b/library/Java/Util/Date/Date.hpp
@@ -83,14 +83,6 @@ namespace Java {
 						 */
 						String timeToString(String pattern, const tm *timeManagement) const;
 						
-						/**
-						 * Get the UTC time
-						 *
-						 * @param timer
-						 * @return long
-						 */
-						static long getUTCTime(long timer);
-						
 						/**
 						 * Get current number from processing String
 						 * Sub method of Date::parse(String inputString)
-- 
2.43.0


From 5af3f3d2b45634bac7152f2fa2a04dfcd89a6a62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:34 +0000
Subject: [PATCH 085/118] fix: equal Dates had different hash codes

---
 library/Java/Util/Date/Date.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/library/Java/Util/Date/Date.cpp b/library/Java/Util/Date/Date.cpp
index d726aad..9827076 100755
--- a/library/Java/Util/Date/Date.cpp
+++ b/library/Java/Util/Date/Date.cpp
@@ -202,8 +202,8 @@ String Date::toGMTString() const {
 }
 
 int Date::hashCode() const {
-    // TODO - Not implement yet
-    return Object::hashCode();
+    long time = this->getTime();
+    return (int) time ^ (int) (time >> 32);
 }
 
 String Date::removeBracket(String inputString) {
-- 
2.43.0


From 29d24f90e4fda55b54d9cd5d2a49212894f2d9da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:34 +0000
Subject: [PATCH 086/118] fix: getting a TimeZone changed the ones got before

---
 library/Java/Util/TimeZone/TimeZone.cpp | 4 ++--
 library/Java/Util/TimeZone/TimeZone.hpp | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/library/Java/Util/TimeZone/TimeZone.cpp b/library/Java/Util/TimeZone/TimeZone.cpp
index 6f1ce11..cf4395c 100755
--- a/library/Java/Util/TimeZone/TimeZone.cpp
+++ b/library/Java/Util/TimeZone/TimeZone.cpp
@@ -36,8 +36,8 @@ String TimeZone::getID() {
     return this->id;
 }
 
-TimeZone &TimeZone::getTimeZone(String id) {
-    static TimeZone timeZone;
+TimeZone TimeZone::getTimeZone(String id) {
+    TimeZone timeZone;
     timeZone.setID(id);
     return timeZone;
 }
\ No newline at end of file
diff --git a/library/Java/Util/TimeZone/TimeZone.hpp b/library/Java/Util/TimeZone/TimeZone.hpp
index c919b37..3fd3baa 100755
--- a/library/Java/Util/TimeZone/TimeZone.hpp
+++ b/library/Java/Util/TimeZone/TimeZone.hpp
@@ -41,7 +41,7 @@ namespace Java {
         public:
             void setID(String ID);
             String getID();
-            static TimeZone &getTimeZone(String id);
+            static TimeZone getTimeZone(String id);
         };
     }
 }
-- 
2.43.0


From 77757b10339c4a512ab2e7d50773f6eb3b5acc0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:53 +0000
Subject: [PATCH 087/118] fix: SimpleDateFormat.format left the process in
 another time zone

---
 .../Java/Text/SimpleDateFormat/SimpleDateFormat.cpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/library/Java/Text/SimpleDateFormat/SimpleDateFormat.cpp b/library/Java/Text/SimpleDateFormat/SimpleDateFormat.cpp
index 5cd8a26..207f054 100644
--- a/library/Java/Text/SimpleDateFormat/SimpleDateFormat.cpp
+++ b/library/Java/Text/SimpleDateFormat/SimpleDateFormat.cpp
@@ -41,8 +41,10 @@ void SimpleDateFormat::setTimeZone(const TimeZone &timeZone) {
 }
 
 String SimpleDateFormat::format(const Date &date) {
-    String tz = String("TZ=") + this->timeZone.getID();
-    putenv(tz.toCharPointer());
+    const char *current = getenv("TZ");
+    boolean hadTimeZone = current != nullptr;
+    String previous = hadTimeZone ? current : "";
+    setenv("TZ", this->timeZone.getID().toCharPointer(), 1);
     std::time_t current_time;
     std::time(&current_time);
     struct std::tm *timeinfo = std::gmtime(&current_time);
@@ -51,7 +53,12 @@ String SimpleDateFormat::format(const Date &date) {
     string buffer = (string) calloc(bufferLength, sizeof(char));
     time_t timestamp = (time_t) ((date.getTime() / 1000) + offset);
     std::strftime(buffer, bufferLength, this->datePattern.toCharPointer(), std::localtime(&timestamp));
-    unsetenv("TZ");
+    if (hadTimeZone) {
+        setenv("TZ", previous.toCharPointer(), 1);
+    } else {
+        unsetenv("TZ");
+    }
+    tzset();
     String formattedDate = buffer;
     free(buffer);
     return formattedDate.trim();
-- 
2.43.0


From deaffd4f7fecb83ffdc35a5ee83eb4949c3a25f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:53 +0000
Subject: [PATCH 088/118] fix: SimpleDateFormat.format gave nothing for texts
 longer than 79 characters

---
 library/Java/Text/SimpleDateFormat/SimpleDateFormat.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/Java/Text/SimpleDateFormat/SimpleDateFormat.cpp b/library/Java/Text/SimpleDateFormat/SimpleDateFormat.cpp
index 207f054..69676db 100644
--- a/library/Java/Text/SimpleDateFormat/SimpleDateFormat.cpp
+++ b/library/Java/Text/SimpleDateFormat/SimpleDateFormat.cpp
@@ -49,7 +49,7 @@ String SimpleDateFormat::format(const Date &date) {
     std::time(&current_time);
     struct std::tm *timeinfo = std::gmtime(&current_time);
     long offset = timeinfo->tm_gmtoff;
-    size_t bufferLength = 80;
+    size_t bufferLength = 80 + 80 * this->datePattern.length();
     string buffer = (string) calloc(bufferLength, sizeof(char));
     time_t timestamp = (time_t) ((date.getTime() / 1000) + offset);
     std::strftime(buffer, bufferLength, this->datePattern.toCharPointer(), std::localtime(&timestamp));
-- 
2.43.0


From fd831e24d420689bdbcf995aa481d96a14bdf32b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:40 +0000
Subject: [PATCH 089/118] fix: the cause of an exception made without a cause
 was uninitialised

---
 library/Java/Lang/Throwable/Throwable.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/Java/Lang/Throwable/Throwable.hpp b/library/Java/Lang/Throwable/Throwable.hpp
index 3254dd0..3a675d9 100755
--- a/library/Java/Lang/Throwable/Throwable.hpp
+++ b/library/Java/Lang/Throwable/Throwable.hpp
@@ -33,7 +33,7 @@ namespace Java {
 		namespace Lang {
 				class Throwable : std::exception {
 				private:
-						Throwable *cause;
+						Throwable *cause = nullptr;
 						String message;
 				
 				public:
-- 
2.43.0


From 666a5d817615b407058a359d0ce65cffcdaea9fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:46 +0000
Subject: [PATCH 090/118] fix: Semaphore lost wakeups and handed out permits it
 did not have

acquire looked at the counter and waited under different mutexes, so that a
release in between was never noticed; it did not look again after a wakeup, so
that the counter could become negative; it took several permits one by one, so
that two callers could each keep a part of what the other needed; release woke
one waiter only; a timed tryAcquire gave up although the permits had come, and
overflowed for very long timeouts.
---
 .../Util/Concurrent/Semaphore/Semaphore.cpp   | 66 ++++++-------------
 .../Util/Concurrent/Semaphore/Semaphore.hpp   |  1 -
 2 files changed, 19 insertions(+), 48 deletions(-)

diff --git a/library/Java/Util/Concurrent/Semaphore/Semaphore.cpp b/library/Java/Util/Concurrent/Semaphore/Semaphore.cpp
index f124ded..b3d7d53 100644
--- a/library/Java/Util/Concurrent/Semaphore/Semaphore.cpp
+++ b/library/Java/Util/Concurrent/Semaphore/Semaphore.cpp
@@ -70,11 +70,9 @@ void Concurrent::Semaphore::release() {
 }
 
 void Concurrent::Semaphore::release(int permits) {
-    std::unique_lock<std::mutex> locker(conditionMutexObject);
-    permitMutexObject.lock();
+    std::unique_lock<std::mutex> locker(permitMutexObject);
     permitCounter += permits;
-    permitMutexObject.unlock();
-    conditionObject.notify_one();
+    conditionObject.notify_all();
 }
 
 boolean Concurrent::Semaphore::tryAcquire() {
@@ -86,55 +84,29 @@ boolean Concurrent::Semaphore::tryAcquire(int permits) {
 }
 
 boolean Concurrent::Semaphore::tryAcquire(int permits, long timeout) {
-    int currentPermits = 0;
+    std::unique_lock<std::mutex> permitsLocker(permitMutexObject);
     if (timeout < 0) {
-        for (int i = 0; i < permits; ++i) {
-            permitMutexObject.lock();
-            currentPermits = permitCounter;
-            permitMutexObject.unlock();
-
-            if (currentPermits == 0) {
-                std::unique_lock<std::mutex> conditionLocker(conditionMutexObject);
-                conditionObject.wait(conditionLocker);
-            }
-
-            permitMutexObject.lock();
-            --permitCounter;
-            permitMutexObject.unlock();
+        while (permitCounter < permits) {
+            conditionObject.wait(permitsLocker);
         }
+        permitCounter -= permits;
         return true;
     } else {
-        {
-            std::unique_lock<std::mutex> permitsLocker(permitMutexObject);
-            if (permits <= permitCounter) {
-                permitCounter -= permits;
-                return true;
-            }
-        }
-
-        long waitTime = timeout;
-        while (true) {
-            std::unique_lock<std::mutex> conditionLocker(conditionMutexObject);
-            const long startTime = duration_cast<milliseconds>(
-                    steady_clock::now().time_since_epoch()).count();
-            std::cv_status waitStatus = conditionObject.wait_for(
-                    conditionLocker, std::chrono::milliseconds(waitTime));
-            if (waitStatus == std::cv_status::timeout) {
+        const steady_clock::time_point startTime = steady_clock::now();
+        const long longestTime = duration_cast<milliseconds>(
+                steady_clock::time_point::max() - startTime).count();
+        const steady_clock::time_point endTime = timeout < longestTime
+                ? startTime + milliseconds(timeout)
+                : steady_clock::time_point::max();
+        while (permits > permitCounter) {
+            std::cv_status waitStatus = conditionObject.wait_until(
+                    permitsLocker, endTime);
+            if (waitStatus == std::cv_status::timeout
+                && permits > permitCounter) {
                 return false;
             }
-
-            const long elapsedTime = duration_cast<milliseconds>(
-                    steady_clock::now().time_since_epoch()).count() - startTime;
-            waitTime -= elapsedTime;
-
-            {
-                std::unique_lock<std::mutex> permitsLocker(permitMutexObject);
-                if (permits <= permitCounter) {
-                    permitCounter -= permits;
-                    return true;
-                }
-            }
         }
+        permitCounter -= permits;
+        return true;
     }
 }
-
diff --git a/library/Java/Util/Concurrent/Semaphore/Semaphore.hpp b/library/Java/Util/Concurrent/Semaphore/Semaphore.hpp
index 6faba4c..bb73eea 100644
--- a/library/Java/Util/Concurrent/Semaphore/Semaphore.hpp
+++ b/library/Java/Util/Concurrent/Semaphore/Semaphore.hpp
@@ -128,7 +128,6 @@ namespace Java {
 
             private:
                 std::mutex permitMutexObject;
-                std::mutex conditionMutexObject;
                 std::condition_variable conditionObject;
                 int permitCounter;
             };
-- 
2.43.0


From 49a40e7a4e40134706988fa1bfb332ebf19a621c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:53 +0000
Subject: [PATCH 091/118] fix: a Thread without a target crashed when it was
 started

---
 library/Java/Lang/Thread/Thread.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/library/Java/Lang/Thread/Thread.cpp b/library/Java/Lang/Thread/Thread.cpp
index a79a1e5..8aee0f6 100755
--- a/library/Java/Lang/Thread/Thread.cpp
+++ b/library/Java/Lang/Thread/Thread.cpp
@@ -84,7 +84,9 @@ void Thread::setName(String name) {
 void Thread::init(Runnable *target, String name) {
     this->target = target;
     this->name = name;
-    this->func = std::bind(&Runnable::run, target);
+    if (target != nullptr) {
+        this->func = std::bind(&Runnable::run, target);
+    }
 }
 
 String Thread::getName() {
-- 
2.43.0


From 9be8f9ee9966e3e38fb842ab20baf9d564f5bc46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:53 +0000
Subject: [PATCH 092/118] fix: isAlive, getId and start of a Thread were wrong
 around its start and end

isAlive was false after start until the thread got to run and true after join;
getId read the id while the thread wrote it; starting a thread that had ended
terminated the process, and two starts at the same time ran the target twice;
a class overriding run() never ended for join.
---
 library/Java/Lang/Thread/Thread.cpp | 28 ++++++++++++++++------------
 library/Java/Lang/Thread/Thread.hpp |  6 ++++++
 2 files changed, 22 insertions(+), 12 deletions(-)

diff --git a/library/Java/Lang/Thread/Thread.cpp b/library/Java/Lang/Thread/Thread.cpp
index 8aee0f6..ae7fa4e 100755
--- a/library/Java/Lang/Thread/Thread.cpp
+++ b/library/Java/Lang/Thread/Thread.cpp
@@ -55,26 +55,24 @@ Thread::~Thread() {
 }
 
 void Thread::run() {
-    // set thread id
-    this->tid = (unsigned long)pthread_self();
+    if (this->func) {
+        this->func();
+    }
+}
 
+void Thread::execute() {
     // set tls
     if (currentThreadPtr == nullptr) {
         currentThreadPtr = this;
     }
 
-    mutexObject.lock();
-    alive = true;
-    mutexObject.unlock();
-
-    if (this->func) {
-        this->func();
-    }
-    semaphoreObject.release(1);
+    this->run();
 
     mutexObject.lock();
     alive = false;
     mutexObject.unlock();
+
+    semaphoreObject.release(1);
 }
 
 void Thread::setName(String name) {
@@ -99,12 +97,18 @@ boolean Thread::isAlive() {
 }
 
 unsigned long Thread::getId() {
+    std::unique_lock<std::mutex> locker(mutexObject);
     return this->tid;
 }
 
 void Thread::start() {
-    if (this->func && !isAlive()) {
-        threadObject = std::move(std::thread(&Thread::run, this));
+    std::unique_lock<std::mutex> locker(mutexObject);
+    if (!started) {
+        threadObject = std::move(std::thread(&Thread::execute, this));
+        // set thread id
+        this->tid = (unsigned long)threadObject.native_handle();
+        alive = true;
+        started = true;
     }
 }
 
diff --git a/library/Java/Lang/Thread/Thread.hpp b/library/Java/Lang/Thread/Thread.hpp
index 5dc85b7..ee5f594 100755
--- a/library/Java/Lang/Thread/Thread.hpp
+++ b/library/Java/Lang/Thread/Thread.hpp
@@ -39,6 +39,7 @@ namespace Java {
             class Thread : public Object, public virtual Runnable {
                 private:
                     boolean alive = false;
+                    boolean started = false;
                     boolean detached = false;
                     String name;
                     unsigned long tid = 0;
@@ -59,6 +60,11 @@ namespace Java {
                      */
                     void init(Runnable *target, String name);
 
+                    /**
+                     * Runs this thread and makes its end known
+                     */
+                    void execute();
+
 				 public:
                     Thread();
                     Thread(Runnable* target);
-- 
2.43.0


From 123f548335e347c18252399112717579fe6527ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:53 +0000
Subject: [PATCH 093/118] fix: only one join of a Thread came back, and none of
 one that was not started

---
 library/Java/Lang/Thread/Thread.cpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/library/Java/Lang/Thread/Thread.cpp b/library/Java/Lang/Thread/Thread.cpp
index ae7fa4e..ba2e8b4 100755
--- a/library/Java/Lang/Thread/Thread.cpp
+++ b/library/Java/Lang/Thread/Thread.cpp
@@ -117,10 +117,21 @@ void Thread::join() {
 }
 
 void Thread::join(long millis) {
+    mutexObject.lock();
+    const boolean isStarted = started;
+    mutexObject.unlock();
+    if (!isStarted) {
+        return;
+    }
+
+    // the permit is given back for whoever joins as well
     if (millis > 0) {
-        semaphoreObject.tryAcquire(1, millis);
+        if (semaphoreObject.tryAcquire(1, millis)) {
+            semaphoreObject.release();
+        }
     } else {
         semaphoreObject.acquire();
+        semaphoreObject.release();
     }
 }
 
-- 
2.43.0


From 30097b9614eec65b39be78d1ef1064adc10cb7cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:53 +0000
Subject: [PATCH 094/118] fix: a detached Thread went on using its object after
 the object was destroyed

---
 library/Java/Lang/Thread/Thread.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/library/Java/Lang/Thread/Thread.cpp b/library/Java/Lang/Thread/Thread.cpp
index ba2e8b4..d78a740 100755
--- a/library/Java/Lang/Thread/Thread.cpp
+++ b/library/Java/Lang/Thread/Thread.cpp
@@ -50,6 +50,8 @@ Thread::Thread(std::function<void()> func) {
 Thread::~Thread() {
     if (threadObject.joinable())
         threadObject.join();
+    else
+        join();
     if (semaphoreObject.availablePermits() > 0)
         semaphoreObject.release(semaphoreObject.availablePermits());
 }
-- 
2.43.0


From 8754b84fc282348208fbecb98acaf57e573a4b3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:54 +0000
Subject: [PATCH 095/118] fix: Thread.getName read the name while setName
 changed it

---
 library/Java/Lang/Thread/Thread.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/library/Java/Lang/Thread/Thread.cpp b/library/Java/Lang/Thread/Thread.cpp
index d78a740..82ac011 100755
--- a/library/Java/Lang/Thread/Thread.cpp
+++ b/library/Java/Lang/Thread/Thread.cpp
@@ -78,6 +78,7 @@ void Thread::execute() {
 }
 
 void Thread::setName(String name) {
+    std::unique_lock<std::mutex> locker(mutexObject);
     this->name = name;
 }
 
@@ -90,6 +91,7 @@ void Thread::init(Runnable *target, String name) {
 }
 
 String Thread::getName() {
+    std::unique_lock<std::mutex> locker(mutexObject);
     return this->name;
 }
 
-- 
2.43.0


From cbfd441992ba3f14ce19307e12975dd301364838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:47 +0000
Subject: [PATCH 096/118] fix: ConcurrentHashMap.putIfAbsent and replace did
 not compile, and remove looked and removed in two steps

---
 .../ConcurrentHashMap/ConcurrentHashMap.hpp   | 69 ++++++++-----------
 1 file changed, 30 insertions(+), 39 deletions(-)

diff --git a/library/Java/Util/Concurrent/ConcurrentHashMap/ConcurrentHashMap.hpp b/library/Java/Util/Concurrent/ConcurrentHashMap/ConcurrentHashMap.hpp
index c6d99ec..988ce34 100644
--- a/library/Java/Util/Concurrent/ConcurrentHashMap/ConcurrentHashMap.hpp
+++ b/library/Java/Util/Concurrent/ConcurrentHashMap/ConcurrentHashMap.hpp
@@ -401,12 +401,11 @@ namespace Java {
                  * 					if the implementation supports null values.)
                  */
                 V putIfAbsent(const K &key, const V &value) {
-                    try {
-                        value = original.find(key);
-                    } catch (std::out_of_range &e) {
-                        this->put(key, value);
-                    }
-                    return value;
+                    V result = V();
+                    original.upsert(key, [&result](V &currentValue) {
+                        result = currentValue;
+                    }, value);
+                    return result;
                 }
 
                 /**
@@ -420,14 +419,12 @@ namespace Java {
                  * 					previously associated null with key.)
                  */
                 V remove(const K &key) {
-                    V v;
-                    try {
-                        v = original.find(key);
-                        original.erase(key);
-                    } catch (std::out_of_range &e) {
-                        // Nothing to do
-                    }
-                    return v;
+                    V result = V();
+                    original.erase_fn(key, [&result](V &currentValue) {
+                        result = currentValue;
+                        return true;
+                    });
+                    return result;
                 }
 
                 /**
@@ -441,16 +438,12 @@ namespace Java {
                  * 			false 		if otherwise
                  */
                 boolean remove(const K &key, const V &value) {
-                    try {
-                        var v = original.find(key);
-                        if (v == value) {
-                            original.erase(key);
-                            return true;
-                        }
-                    } catch (std::out_of_range &e) {
-                        // Nothing to do
-                    }
-                    return false;
+                    boolean removed = false;
+                    original.erase_fn(key, [&value, &removed](V &currentValue) {
+                        removed = currentValue == value;
+                        return removed;
+                    });
+                    return removed;
                 }
 
                 /**
@@ -467,13 +460,11 @@ namespace Java {
                  * 					if the implementation supports null values.)
                  */
                 V replace(const K &key, const V &value) {
-                    V result;
-                    auto const iteratorToString = original.find(key);
-                    if (iteratorToString == this->end()) {
-                        return result;
-                    }
-                    result = iteratorToString->second;
-                    this->put(key, value);
+                    V result = V();
+                    original.update_fn(key, [&result, &value](V &currentValue) {
+                        result = currentValue;
+                        currentValue = value;
+                    });
                     return result;
                 }
 
@@ -492,14 +483,14 @@ namespace Java {
                 boolean replace(const K &key,
                                 const V &oldValue,
                                 const V &newValue) {
-                    V result;
-                    auto const iteratorToString = original.find(key);
-                    if (iteratorToString == this->end()
-                        || iteratorToString->second != oldValue) {
-                        return false;
-                    }
-                    this->put(key, newValue);
-                    return true;
+                    boolean replaced = false;
+                    original.update_fn(key, [&](V &currentValue) {
+                        if (currentValue == oldValue) {
+                            currentValue = newValue;
+                            replaced = true;
+                        }
+                    });
+                    return replaced;
                 }
 
                 /**
-- 
2.43.0


From e6657946bed8a7fe961840f63d6b63bdf75235bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:47 +0000
Subject: [PATCH 097/118] fix: ConcurrentHashMap.get of a missing key gave an
 uninitialised value

---
 .../Concurrent/ConcurrentHashMap/ConcurrentHashMap.hpp | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/library/Java/Util/Concurrent/ConcurrentHashMap/ConcurrentHashMap.hpp b/library/Java/Util/Concurrent/ConcurrentHashMap/ConcurrentHashMap.hpp
index 988ce34..1070d8b 100644
--- a/library/Java/Util/Concurrent/ConcurrentHashMap/ConcurrentHashMap.hpp
+++ b/library/Java/Util/Concurrent/ConcurrentHashMap/ConcurrentHashMap.hpp
@@ -336,13 +336,9 @@ namespace Java {
                  * 							or default if no mapping with key
                  */
                 V get(const K &key) const {
-                    try {
-                        var value = original.find(key);
-                        return value;
-                    } catch (std::out_of_range &exception) {
-                        V v;
-                        return v;
-                    }
+                    V value = V();
+                    original.find(key, value);
+                    return value;
                 }
 
                 /**
-- 
2.43.0


From 4b19baa883d70ff095388b206794beadf2cb3e4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:48 +0000
Subject: [PATCH 098/118] fix: ConcurrentHashMap.clear ran without the locks

---
 .../Concurrent/ConcurrentHashMap/libcuckoo/cuckoohash_map.hh    | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/Java/Util/Concurrent/ConcurrentHashMap/libcuckoo/cuckoohash_map.hh b/library/Java/Util/Concurrent/ConcurrentHashMap/libcuckoo/cuckoohash_map.hh
index 6b4b0db..d250f7b 100644
--- a/library/Java/Util/Concurrent/ConcurrentHashMap/libcuckoo/cuckoohash_map.hh
+++ b/library/Java/Util/Concurrent/ConcurrentHashMap/libcuckoo/cuckoohash_map.hh
@@ -678,7 +678,7 @@ namespace libcuckoo {
          * Removes all elements in the table, calling their destructors.
          */
         void clear() {
-            lock_all(normal_mode());
+            const auto all_locks_manager = lock_all(normal_mode());
             cuckoo_clear();
         }
 
-- 
2.43.0


From 3e6c4c6914535265e0caa79fcd26ba50d744ee7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:48 +0000
Subject: [PATCH 099/118] fix: ConcurrentHashMap.size read counters while other
 threads wrote them

---
 .../Concurrent/ConcurrentHashMap/libcuckoo/cuckoohash_map.hh  | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/library/Java/Util/Concurrent/ConcurrentHashMap/libcuckoo/cuckoohash_map.hh b/library/Java/Util/Concurrent/ConcurrentHashMap/libcuckoo/cuckoohash_map.hh
index d250f7b..55e48bf 100644
--- a/library/Java/Util/Concurrent/ConcurrentHashMap/libcuckoo/cuckoohash_map.hh
+++ b/library/Java/Util/Concurrent/ConcurrentHashMap/libcuckoo/cuckoohash_map.hh
@@ -827,7 +827,7 @@ namespace libcuckoo {
                 return !lock_.test_and_set(std::memory_order_acq_rel);
             }
 
-            counter_type &elem_counter() noexcept { return elem_counter_; }
+            std::atomic<counter_type> &elem_counter() noexcept { return elem_counter_; }
             counter_type elem_counter() const noexcept { return elem_counter_; }
 
             bool &is_migrated() noexcept { return is_migrated_; }
@@ -835,7 +835,7 @@ namespace libcuckoo {
 
         protected:
             std::atomic_flag lock_;
-            counter_type elem_counter_;
+            std::atomic<counter_type> elem_counter_;
             bool is_migrated_;
         };
 
-- 
2.43.0


From a12e0740a33a4a94c511558dd663e219050a4bae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:48 +0000
Subject: [PATCH 100/118] fix: an action of ConcurrentHashMap.forEach that used
 the map never ended

---
 .../ConcurrentHashMap/ConcurrentHashMap.hpp   | 27 ++++++++++++++-----
 1 file changed, 20 insertions(+), 7 deletions(-)

diff --git a/library/Java/Util/Concurrent/ConcurrentHashMap/ConcurrentHashMap.hpp b/library/Java/Util/Concurrent/ConcurrentHashMap/ConcurrentHashMap.hpp
index 1070d8b..dab2e85 100644
--- a/library/Java/Util/Concurrent/ConcurrentHashMap/ConcurrentHashMap.hpp
+++ b/library/Java/Util/Concurrent/ConcurrentHashMap/ConcurrentHashMap.hpp
@@ -46,10 +46,26 @@ namespace Java {
                     public virtual Serializable {
 
             private:
-                libcuckoo::cuckoohash_map<K, V> original;
+                // Mutable, because reading all elements takes the locks of the table
+                mutable libcuckoo::cuckoohash_map<K, V> original;
                 typedef typename libcuckoo::cuckoohash_map<K, V>::locked_table::iterator IteratorType;
                 typedef typename libcuckoo::cuckoohash_map<K, V>::locked_table::const_iterator ConstIteratorType;
 
+                /**
+                 * Returns the elements the map has at one moment
+                 *
+                 * @return the keys and values
+                 */
+                std::vector<std::pair<K, V>> snapshot() const {
+                    std::vector<std::pair<K, V>> elements;
+                    var lockTable = original.lock_table();
+                    elements.reserve(lockTable.size());
+                    for (auto it = lockTable.begin(); it != lockTable.end(); ++it) {
+                        elements.emplace_back((*it).first, (*it).second);
+                    }
+                    return elements;
+                }
+
             public:
                 /**
                  * Constructs an empty ConcurrentHashMap
@@ -306,14 +322,11 @@ namespace Java {
                  * @param action
                  */
                 void forEach(const std::function<boolean(K, V)> &action) {
-                    var lockTable = original.lock_table();
-                    auto it = lockTable.begin();
-                    var tableSize = lockTable.size();
-                    for (size_t i = 0; i < tableSize; ++i) {
-                        if (!action((*it).first, (*it).second)) {
+                    // The action is called without locks, so that it may use this map
+                    for (auto const &element : snapshot()) {
+                        if (!action(element.first, element.second)) {
                             break;
                         }
-                        it++;
                     }
                 }
 
-- 
2.43.0


From 18a7710dc9102b7ff48d1d572244a239214bf5f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:49 +0000
Subject: [PATCH 101/118] fix: copying a ConcurrentHashMap crashed after clear
 or forEach and raced with changes; clone and equals did not compile

---
 .../ConcurrentHashMap/ConcurrentHashMap.hpp   | 37 ++++++++++++++-----
 1 file changed, 27 insertions(+), 10 deletions(-)

diff --git a/library/Java/Util/Concurrent/ConcurrentHashMap/ConcurrentHashMap.hpp b/library/Java/Util/Concurrent/ConcurrentHashMap/ConcurrentHashMap.hpp
index dab2e85..4c30eec 100644
--- a/library/Java/Util/Concurrent/ConcurrentHashMap/ConcurrentHashMap.hpp
+++ b/library/Java/Util/Concurrent/ConcurrentHashMap/ConcurrentHashMap.hpp
@@ -80,7 +80,26 @@ namespace Java {
                  * 					are to be placed in this map
                  */
                 ConcurrentHashMap(const ConcurrentHashMap <K, V> &target) {
-                    original = target.original;
+                    for (auto const &element : target.snapshot()) {
+                        put(element.first, element.second);
+                    }
+                }
+
+                /**
+                 * Makes this map have the mappings of the specified map only.
+                 *
+                 * @param target    the map whose mappings
+                 *                  are to be placed in this map
+                 * @return this map
+                 */
+                ConcurrentHashMap <K, V> &operator=(const ConcurrentHashMap <K, V> &target) {
+                    const std::vector<std::pair<K, V>> elements = target.snapshot();
+                    var lockTable = original.lock_table();
+                    lockTable.clear();
+                    for (auto const &element : elements) {
+                        lockTable.insert(element.first, element.second);
+                    }
+                    return *this;
                 }
 
                 /**
@@ -106,12 +125,14 @@ namespace Java {
                  *          false if not equal
                  */
                 boolean equals(const ConcurrentHashMap <K, V> &anotherHashMap) {
-                    if (original.size() != anotherHashMap.size()) {
+                    const std::vector<std::pair<K, V>> elements = anotherHashMap.snapshot();
+                    var lockTable = original.lock_table();
+                    if (lockTable.size() != elements.size()) {
                         return false;
                     }
-                    for (var const &thisElement : this) {
-                        V anotherValue = anotherHashMap.get(thisElement.first);
-                        if (thisElement.second != anotherValue) {
+                    for (auto const &element : elements) {
+                        auto it = lockTable.find(element.first);
+                        if (it == lockTable.end() || !((*it).second == element.second)) {
                             return false;
                         }
                     }
@@ -147,11 +168,7 @@ namespace Java {
                  * @return ConcurrentHashMap<K, V>
                  */
                 ConcurrentHashMap <K, V> clone() const {
-                    ConcurrentHashMap < K, V > result;
-                    for (auto const &element : this) {
-                        result.put(element.first, element.second);
-                    }
-                    return result;
+                    return *this;
                 }
 
                 /**
-- 
2.43.0


From e105c1da57ff5e849c5e985863336fdad8c1f701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:49 +0000
Subject: [PATCH 102/118] fix: Strings that differ behind a NUL character all
 had the same std::hash

---
 library/Java/Lang/String/String.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/Java/Lang/String/String.hpp b/library/Java/Lang/String/String.hpp
index 69c8461..cc6641d 100644
--- a/library/Java/Lang/String/String.hpp
+++ b/library/Java/Lang/String/String.hpp
@@ -1138,7 +1138,7 @@ namespace Java {
             }
         
             inline size_t operator()(const String &target) const {
-                return std::hash<std::string>{}(target.toCharPointer());
+                return std::hash<std::string>{}(target.original);
             }
 
             inline explicit operator const_string() const {
-- 
2.43.0


From 1f644a685087a3d10666d0edfdb73853f183a862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:49 +0000
Subject: [PATCH 103/118] fix: a ConcurrentHashMap refused numbers that differ
 in few of their bits

---
 .../ConcurrentHashMap/ConcurrentHashMap.hpp   | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/library/Java/Util/Concurrent/ConcurrentHashMap/ConcurrentHashMap.hpp b/library/Java/Util/Concurrent/ConcurrentHashMap/ConcurrentHashMap.hpp
index 4c30eec..deae7d6 100644
--- a/library/Java/Util/Concurrent/ConcurrentHashMap/ConcurrentHashMap.hpp
+++ b/library/Java/Util/Concurrent/ConcurrentHashMap/ConcurrentHashMap.hpp
@@ -46,10 +46,23 @@ namespace Java {
                     public virtual Serializable {
 
             private:
+                /**
+                 * The table needs hash values that differ in all bits, which
+                 * those of numbers do not
+                 */
+                struct Hash {
+                    size_t operator()(const K &key) const {
+                        unsigned long long value = std::hash<K>()(key);
+                        value = (value ^ (value >> 33)) * 0xff51afd7ed558ccdULL;
+                        value = (value ^ (value >> 33)) * 0xc4ceb9fe1a85ec53ULL;
+                        return (size_t) (value ^ (value >> 33));
+                    }
+                };
+
                 // Mutable, because reading all elements takes the locks of the table
-                mutable libcuckoo::cuckoohash_map<K, V> original;
-                typedef typename libcuckoo::cuckoohash_map<K, V>::locked_table::iterator IteratorType;
-                typedef typename libcuckoo::cuckoohash_map<K, V>::locked_table::const_iterator ConstIteratorType;
+                mutable libcuckoo::cuckoohash_map<K, V, Hash> original;
+                typedef typename libcuckoo::cuckoohash_map<K, V, Hash>::locked_table::iterator IteratorType;
+                typedef typename libcuckoo::cuckoohash_map<K, V, Hash>::locked_table::const_iterator ConstIteratorType;
 
                 /**
                  * Returns the elements the map has at one moment
-- 
2.43.0


From c921e93dfd7a122b74acf1ffd08a434cb94d365a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:34 +0000
Subject: [PATCH 104/118] NATIVE_MODEL_CHECKING: ConcurrentHashMap starts with
 four buckets and locks

---
 .../ConcurrentHashMap/libcuckoo/cuckoohash_config.hh        | 4 ++++
 .../ConcurrentHashMap/libcuckoo/cuckoohash_map.hh           | 6 ++++++
 2 files changed, 10 insertions(+)

diff --git a/library/Java/Util/Concurrent/ConcurrentHashMap/libcuckoo/cuckoohash_config.hh b/library/Java/Util/Concurrent/ConcurrentHashMap/libcuckoo/cuckoohash_config.hh
index 48aa0e9..8f33c29 100644
--- a/library/Java/Util/Concurrent/ConcurrentHashMap/libcuckoo/cuckoohash_config.hh
+++ b/library/Java/Util/Concurrent/ConcurrentHashMap/libcuckoo/cuckoohash_config.hh
@@ -15,8 +15,12 @@ namespace libcuckoo {
     constexpr size_t DEFAULT_SLOT_PER_BUCKET = 4;
 
 //! The default number of elements in an empty hash table
+#ifdef NATIVE_MODEL_CHECKING
+    constexpr size_t DEFAULT_SIZE = (1U << 2) * DEFAULT_SLOT_PER_BUCKET;
+#else
     constexpr size_t DEFAULT_SIZE =
             (1U << 16) * DEFAULT_SLOT_PER_BUCKET;
+#endif
 
 //! The default minimum load factor that the table allows for automatic
 //! expansion. It must be a number between 0.0 and 1.0. The table will throw
diff --git a/library/Java/Util/Concurrent/ConcurrentHashMap/libcuckoo/cuckoohash_map.hh b/library/Java/Util/Concurrent/ConcurrentHashMap/libcuckoo/cuckoohash_map.hh
index 55e48bf..abb6ac5 100644
--- a/library/Java/Util/Concurrent/ConcurrentHashMap/libcuckoo/cuckoohash_map.hh
+++ b/library/Java/Util/Concurrent/ConcurrentHashMap/libcuckoo/cuckoohash_map.hh
@@ -2012,7 +2012,13 @@ namespace libcuckoo {
         // This class is a friend for unit testing
         friend class UnitTestInternalAccess;
 
+        // A model checker uses a table so small that it is filled and doubled
+        // within a few operations.
+#ifdef NATIVE_MODEL_CHECKING
+        static constexpr size_type kMaxNumLocks = 1UL << 2;
+#else
         static constexpr size_type kMaxNumLocks = 1UL << 16;
+#endif
 
         locks_t &get_current_locks() const { return all_locks_.back(); }
 
-- 
2.43.0


From d0bbe06d0935e713f4463ab1a848044ce7645ed1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:58 +0000
Subject: [PATCH 105/118] NATIVE_MODEL_CHECKING: ConcurrentHashMap looks three
 steps deep for a free slot

---
 .../Concurrent/ConcurrentHashMap/libcuckoo/cuckoohash_map.hh  | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/library/Java/Util/Concurrent/ConcurrentHashMap/libcuckoo/cuckoohash_map.hh b/library/Java/Util/Concurrent/ConcurrentHashMap/libcuckoo/cuckoohash_map.hh
index abb6ac5..96cd1fd 100644
--- a/library/Java/Util/Concurrent/ConcurrentHashMap/libcuckoo/cuckoohash_map.hh
+++ b/library/Java/Util/Concurrent/ConcurrentHashMap/libcuckoo/cuckoohash_map.hh
@@ -1320,7 +1320,11 @@ namespace libcuckoo {
 
         // The maximum number of items in a cuckoo BFS path. It determines the
         // maximum number of slots we search when cuckooing.
+#ifdef NATIVE_MODEL_CHECKING
+        static constexpr uint8_t MAX_BFS_PATH_LEN = 3;
+#else
         static constexpr uint8_t MAX_BFS_PATH_LEN = 5;
+#endif
 
         // An array of CuckooRecords
         using CuckooRecords = std::array<CuckooRecord, MAX_BFS_PATH_LEN>;
-- 
2.43.0


From 8a7e372c2bd73711f31f8730ab2c8882bd714e18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:52 +0000
Subject: [PATCH 106/118] fix: ConcurrentHashMap.put threw when the map was
 cleared while it looked for a place

---
 .../libcuckoo/cuckoohash_map.hh               | 24 +++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/library/Java/Util/Concurrent/ConcurrentHashMap/libcuckoo/cuckoohash_map.hh b/library/Java/Util/Concurrent/ConcurrentHashMap/libcuckoo/cuckoohash_map.hh
index 96cd1fd..4da86c8 100644
--- a/library/Java/Util/Concurrent/ConcurrentHashMap/libcuckoo/cuckoohash_map.hh
+++ b/library/Java/Util/Concurrent/ConcurrentHashMap/libcuckoo/cuckoohash_map.hh
@@ -1158,6 +1158,16 @@ namespace libcuckoo {
 
         // Insertion types and function
 
+        // is_full tells whether all slots of the bucket are occupied.
+        static bool is_full(const bucket &b) {
+            for (size_type i = 0; i < slot_per_bucket(); ++i) {
+                if (!b.occupied(i)) {
+                    return false;
+                }
+            }
+            return true;
+        }
+
         /**
          * Runs cuckoo_insert in a loop until it succeeds in insert and upsert, so
          * we pulled out the loop to avoid duplicating logic.
@@ -1183,8 +1193,18 @@ namespace libcuckoo {
                         return pos;
                     case failure_table_full:
                         // Expand the table and try again, re-grabbing the locks
-                        cuckoo_fast_double<TABLE_MODE, automatic_resize>(hp);
-                        b = snapshot_and_lock_two<TABLE_MODE>(hv);
+                        try {
+                            cuckoo_fast_double<TABLE_MODE, automatic_resize>(hp);
+                            b = snapshot_and_lock_two<TABLE_MODE>(hv);
+                        } catch (load_factor_too_low &) {
+                            // Elements may have been removed since the table was found
+                            // to be full, so see whether there is a place now.
+                            b = snapshot_and_lock_two<TABLE_MODE>(hv);
+                            if (load_factor() < minimum_load_factor() &&
+                                is_full(buckets_[b.i1]) && is_full(buckets_[b.i2])) {
+                                throw;
+                            }
+                        }
                         break;
                     case failure_under_expansion:
                         // The table was under expansion while we were cuckooing. Re-grab the
-- 
2.43.0


From b8e82fec0a0715887e672a81f3807b7e5b08c4ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:48 +0000
Subject: [PATCH 107/118] fix: ConcurrentLinkedQueue.offer dropped the element

---
 .../Concurrent/ConcurrentLinkedQueue/ConcurrentLinkedQueue.hpp  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/Java/Util/Concurrent/ConcurrentLinkedQueue/ConcurrentLinkedQueue.hpp b/library/Java/Util/Concurrent/ConcurrentLinkedQueue/ConcurrentLinkedQueue.hpp
index b2103dc..8107e8e 100644
--- a/library/Java/Util/Concurrent/ConcurrentLinkedQueue/ConcurrentLinkedQueue.hpp
+++ b/library/Java/Util/Concurrent/ConcurrentLinkedQueue/ConcurrentLinkedQueue.hpp
@@ -61,7 +61,7 @@ namespace Java {
                 }
 
                 boolean offer(const E &e) {
-                    return true;
+                    return original.enqueue(e);
                 }
 
                 E peek() const {
-- 
2.43.0


From 5299ff0c54525c05e31ea5c1ee26bfb4cf684fb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:48 +0000
Subject: [PATCH 108/118] fix: ConcurrentLinkedQueue.poll of an empty queue
 gave an uninitialised value

---
 .../Concurrent/ConcurrentLinkedQueue/ConcurrentLinkedQueue.hpp  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/Java/Util/Concurrent/ConcurrentLinkedQueue/ConcurrentLinkedQueue.hpp b/library/Java/Util/Concurrent/ConcurrentLinkedQueue/ConcurrentLinkedQueue.hpp
index 8107e8e..9b0b4d3 100644
--- a/library/Java/Util/Concurrent/ConcurrentLinkedQueue/ConcurrentLinkedQueue.hpp
+++ b/library/Java/Util/Concurrent/ConcurrentLinkedQueue/ConcurrentLinkedQueue.hpp
@@ -69,7 +69,7 @@ namespace Java {
                 }
 
                 E poll() {
-                    E e;
+                    E e = E();
                     original.try_dequeue(e);
                     return e;
                 }
-- 
2.43.0


From bd2d0ddf3ca56177ccb6baf706f71466dfc6b673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:49 +0000
Subject: [PATCH 109/118] fix: ConcurrentLinkedQueue.clear left the elements in
 the queue

---
 .../Concurrent/ConcurrentLinkedQueue/ConcurrentLinkedQueue.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/library/Java/Util/Concurrent/ConcurrentLinkedQueue/ConcurrentLinkedQueue.hpp b/library/Java/Util/Concurrent/ConcurrentLinkedQueue/ConcurrentLinkedQueue.hpp
index 9b0b4d3..f537413 100644
--- a/library/Java/Util/Concurrent/ConcurrentLinkedQueue/ConcurrentLinkedQueue.hpp
+++ b/library/Java/Util/Concurrent/ConcurrentLinkedQueue/ConcurrentLinkedQueue.hpp
@@ -79,6 +79,9 @@ namespace Java {
                 }
 
                 void clear() {
+                    E e = E();
+                    while (original.try_dequeue(e)) {
+                    }
                 }
 
                 boolean contains(const E &e) {
-- 
2.43.0


From 44acbbd4a320f7e29e3b88468259b8e42486d651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:49 +0000
Subject: [PATCH 110/118] NATIVE_MODEL_CHECKING: ConcurrentLinkedQueue has
 blocks of two elements

---
 .../ConcurrentLinkedQueue/concurrentqueue.hpp        | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/library/Java/Util/Concurrent/ConcurrentLinkedQueue/concurrentqueue.hpp b/library/Java/Util/Concurrent/ConcurrentLinkedQueue/concurrentqueue.hpp
index 1340b97..83142ca 100644
--- a/library/Java/Util/Concurrent/ConcurrentLinkedQueue/concurrentqueue.hpp
+++ b/library/Java/Util/Concurrent/ConcurrentLinkedQueue/concurrentqueue.hpp
@@ -306,7 +306,11 @@ namespace moodycamel {
         // but many producers, a smaller block size should be favoured. For few producers
         // and/or many elements, a larger block size is preferred. A sane default
         // is provided. Must be a power of 2.
+#ifdef NATIVE_MODEL_CHECKING
+        static const size_t BLOCK_SIZE = 2;
+#else
         static const size_t BLOCK_SIZE = 32;
+#endif
 
         // For explicit producers (i.e. when using a producer token), the block is
         // checked for being empty by iterating through a list of flags, one per element.
@@ -321,13 +325,21 @@ namespace moodycamel {
 
         // How many full blocks can be expected for a single implicit producer? This should
         // reflect that number's maximum for optimal performance. Must be a power of 2.
+#ifdef NATIVE_MODEL_CHECKING
+        static const size_t IMPLICIT_INITIAL_INDEX_SIZE = 2;
+#else
         static const size_t IMPLICIT_INITIAL_INDEX_SIZE = 32;
+#endif
 
         // The initial size of the hash table mapping thread IDs to implicit producers.
         // Note that the hash is resized every time it becomes half full.
         // Must be a power of two, and either 0 or at least 1. If 0, implicit production
         // (using the enqueue methods without an explicit producer token) is disabled.
+#ifdef NATIVE_MODEL_CHECKING
+        static const size_t INITIAL_IMPLICIT_PRODUCER_HASH_SIZE = 1;
+#else
         static const size_t INITIAL_IMPLICIT_PRODUCER_HASH_SIZE = 32;
+#endif
 
         // Controls the number of items that an explicit consumer (i.e. one with a token)
         // must consume before it causes all consumers to rotate and move on to the next
-- 
2.43.0


From bb0b5785d280873e4d35044f41aabf01d88b49a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:56 +0000
Subject: [PATCH 111/118] fix: a block of ConcurrentLinkedQueue was used again
 without synchronisation with its last readers

---
 .../Util/Concurrent/ConcurrentLinkedQueue/concurrentqueue.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/library/Java/Util/Concurrent/ConcurrentLinkedQueue/concurrentqueue.hpp b/library/Java/Util/Concurrent/ConcurrentLinkedQueue/concurrentqueue.hpp
index 83142ca..d352699 100644
--- a/library/Java/Util/Concurrent/ConcurrentLinkedQueue/concurrentqueue.hpp
+++ b/library/Java/Util/Concurrent/ConcurrentLinkedQueue/concurrentqueue.hpp
@@ -1556,7 +1556,7 @@ namespace moodycamel {
                 }
                 else {
                     // Increment counter
-                    auto prevVal = elementsCompletelyDequeued.fetch_add(1, std::memory_order_release);
+                    auto prevVal = elementsCompletelyDequeued.fetch_add(1, std::memory_order_acq_rel);
                     assert(prevVal < BLOCK_SIZE);
                     return prevVal == BLOCK_SIZE - 1;
                 }
@@ -1579,7 +1579,7 @@ namespace moodycamel {
                 }
                 else {
                     // Increment counter
-                    auto prevVal = elementsCompletelyDequeued.fetch_add(count, std::memory_order_release);
+                    auto prevVal = elementsCompletelyDequeued.fetch_add(count, std::memory_order_acq_rel);
                     assert(prevVal + count <= BLOCK_SIZE);
                     return prevVal + count == BLOCK_SIZE;
                 }
-- 
2.43.0


From b653b0b5c631bc0f1ea248b79bf7d09a01757273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:40 +0000
Subject: [PATCH 112/118] fix: threads sharing a Random got the same Gaussian
 number twice

---
 library/Java/Util/Random/Random.cpp | 3 +++
 library/Java/Util/Random/Random.hpp | 2 ++
 2 files changed, 5 insertions(+)

diff --git a/library/Java/Util/Random/Random.cpp b/library/Java/Util/Random/Random.cpp
index f02b3f6..5750264 100755
--- a/library/Java/Util/Random/Random.cpp
+++ b/library/Java/Util/Random/Random.cpp
@@ -114,6 +114,7 @@ void Random::resetSeed(long seedVal) {
  * @param other
  */
 Random::Random(const Random &other) {
+	std::lock_guard<std::mutex> guard(other.gaussianMutex);
 	this->seed.store(other.seed.load());
 	this->haveNextGaussianNumber = other.haveNextGaussianNumber;
 	this->nextGaussianNumber = other.nextGaussianNumber;
@@ -234,6 +235,7 @@ float Random::nextFloat() {
  * @return double
  */
 double Random::nextGaussian() {
+	std::lock_guard<std::mutex> guard(gaussianMutex);
 	if (haveNextGaussianNumber) {
 		haveNextGaussianNumber = false;
 		return nextGaussianNumber;
@@ -257,6 +259,7 @@ double Random::nextGaussian() {
  * @param seed
  */
 void Random::setSeed(long seed) {
+	std::lock_guard<std::mutex> guard(gaussianMutex);
 	this->seed.store(initialScramble(seed));
 	haveNextGaussianNumber = false;
 }
diff --git a/library/Java/Util/Random/Random.hpp b/library/Java/Util/Random/Random.hpp
index 6a954d2..5fff860 100755
--- a/library/Java/Util/Random/Random.hpp
+++ b/library/Java/Util/Random/Random.hpp
@@ -27,6 +27,7 @@
 #ifndef NATIVE_JAVA_UTIL_RANDOM_HPP
 #define NATIVE_JAVA_UTIL_RANDOM_HPP
 
+#include <mutex>
 #include "../../Lang.hpp"
 #define CHAR_LIST "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789"
 
@@ -45,6 +46,7 @@ namespace Java {
 						static constexpr double DOUBLE_UNIT = 1.0 / ( 1L << 53 );
 						boolean haveNextGaussianNumber = false;
 						double nextGaussianNumber;
+						mutable std::mutex gaussianMutex;
 						//static long seedOffset;
 				
 				public:
-- 
2.43.0


From da341a1ae3243a5dcd815b4083b717a8b18ba586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:42 +0000
Subject: [PATCH 113/118] fix: threads that made time UUIDs at the same moment
 got the same ones

---
 library/Java/Util/UUID/UUID.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/library/Java/Util/UUID/UUID.cpp b/library/Java/Util/UUID/UUID.cpp
index ec88455..5ab2ad0 100755
--- a/library/Java/Util/UUID/UUID.cpp
+++ b/library/Java/Util/UUID/UUID.cpp
@@ -24,6 +24,7 @@
  * OF THIS SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
  */
 
+#include <mutex>
 #include "UUID.hpp"
 
 /**
@@ -243,8 +244,13 @@ UUID UUID::randomUUID() {
 }
 
 UUID UUID::timeUUID() {
+    // the generator keeps its last time and sequence in static variables
+    static std::mutex generatorMutex;
     uuid_t uuid;
-    uuid_generate_time_safe(uuid);
+    {
+        std::lock_guard<std::mutex> guard(generatorMutex);
+        uuid_generate_time_safe(uuid);
+    }
     char uuid_str[37];
     uuid_unparse_lower(uuid, uuid_str);
 	return UUID::fromString(uuid_str);
-- 
2.43.0


From e762aa79018c76b060b8470fa7e3b54e63f8612c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:50 +0000
Subject: [PATCH 114/118] fix: Date.parse read a text with month 0 as a date 21
 years later

---
 library/Java/Util/Date/Date.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/Java/Util/Date/Date.cpp b/library/Java/Util/Date/Date.cpp
index 9827076..ba52c09 100755
--- a/library/Java/Util/Date/Date.cpp
+++ b/library/Java/Util/Date/Date.cpp
@@ -309,7 +309,7 @@ long Date::parse(String inputString) {
                 }
             } else if (currentChar == '/') {
                 if (month < 0) {
-                    month = (byte) (currentNumber - 1);
+                    month = currentNumber - 1;
                 } else if (dayOfMonth < 0) {
                     dayOfMonth = (byte) currentNumber;
                 } else {
-- 
2.43.0


From 1635cbccd469f316b93458a26b0d89b1173e4a12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:46 +0000
Subject: [PATCH 115/118] fix: threads that first used Bytes.valueOf at the
 same moment made two caches and could read half of one

---
 library/Java/Lang/Bytes/Bytes.cpp | 2 --
 library/Java/Lang/Bytes/Bytes.hpp | 6 +-----
 2 files changed, 1 insertion(+), 7 deletions(-)

diff --git a/library/Java/Lang/Bytes/Bytes.cpp b/library/Java/Lang/Bytes/Bytes.cpp
index c02a48e..a092f6e 100755
--- a/library/Java/Lang/Bytes/Bytes.cpp
+++ b/library/Java/Lang/Bytes/Bytes.cpp
@@ -30,8 +30,6 @@
 
 using namespace Java::Lang;
 
-ByteCache *ByteCache::instance = nullptr;
-
 Bytes::Bytes(byte byteValue) {
     this->original = byteValue;
     asprintf(&this->originalString, "%d", this->original);
diff --git a/library/Java/Lang/Bytes/Bytes.hpp b/library/Java/Lang/Bytes/Bytes.hpp
index d913df0..8eedd3a 100755
--- a/library/Java/Lang/Bytes/Bytes.hpp
+++ b/library/Java/Lang/Bytes/Bytes.hpp
@@ -426,8 +426,6 @@ namespace Java {
          */
         class ByteCache {
         private:
-            static ByteCache *instance;
-
             ByteCache() {
                 cache = this->cacheInit();
             };
@@ -446,9 +444,7 @@ namespace Java {
 
         public:
             static ByteCache *getInstance() {
-                if (instance == nullptr) {
-                    instance = new ByteCache();
-                }
+                static ByteCache *instance = new ByteCache();
                 return instance;
             }
 
-- 
2.43.0


From a13b5e535a8fa2f847ee3eb172583add58fd0b58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:30 +0000
Subject: [PATCH 116/118] fix: Date.parse of two digit years shared the buffer
 of localtime with other threads

---
 library/Java/Util/Date/Date.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/library/Java/Util/Date/Date.cpp b/library/Java/Util/Date/Date.cpp
index ba52c09..32c1795 100755
--- a/library/Java/Util/Date/Date.cpp
+++ b/library/Java/Util/Date/Date.cpp
@@ -393,10 +393,11 @@ long Date::parse(String inputString) {
     if (year < 100) {
         auto now = std::chrono::system_clock::now();
         std::time_t now_c = std::chrono::system_clock::to_time_t(now);
-        struct tm *currentTime = std::localtime(&now_c);
+        struct tm currentTime;
+        localtime_r(&now_c, &currentTime);
 
-        currentTime->tm_year += 1900;
-        int defaultCenturyStart = currentTime->tm_year - 80;
+        currentTime.tm_year += 1900;
+        int defaultCenturyStart = currentTime.tm_year - 80;
         year += (defaultCenturyStart / 100) * 100;
 
         if (year < defaultCenturyStart) {
-- 
2.43.0


From 75c7597ab38ce04a4777b6027a68501ab7a387a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:33 +0000
Subject: [PATCH 117/118] fix: formatting a date disturbed the dates other
 threads made or formatted meanwhile

---
 .../SimpleDateFormat/SimpleDateFormat.cpp     |  1 +
 library/Java/Util/Date/Date.cpp               | 37 +++++++++++++++----
 library/Java/Util/Date/Date.hpp               |  8 ++++
 3 files changed, 38 insertions(+), 8 deletions(-)

diff --git a/library/Java/Text/SimpleDateFormat/SimpleDateFormat.cpp b/library/Java/Text/SimpleDateFormat/SimpleDateFormat.cpp
index 69676db..9fa09f5 100644
--- a/library/Java/Text/SimpleDateFormat/SimpleDateFormat.cpp
+++ b/library/Java/Text/SimpleDateFormat/SimpleDateFormat.cpp
@@ -41,6 +41,7 @@ void SimpleDateFormat::setTimeZone(const TimeZone &timeZone) {
 }
 
 String SimpleDateFormat::format(const Date &date) {
+    std::lock_guard<std::mutex> guard(Date::timeZoneMutex());
     const char *current = getenv("TZ");
     boolean hadTimeZone = current != nullptr;
     String previous = hadTimeZone ? current : "";
diff --git a/library/Java/Util/Date/Date.cpp b/library/Java/Util/Date/Date.cpp
index 32c1795..17d5574 100755
--- a/library/Java/Util/Date/Date.cpp
+++ b/library/Java/Util/Date/Date.cpp
@@ -169,6 +169,11 @@ String Date::toString() const{
     return this->backUp;
 }
 
+std::mutex &Date::timeZoneMutex() {
+    static std::mutex mutex;
+    return mutex;
+}
+
 long Date::UTC(int year, int month, int date, int hour, int minute, int second) {
     tm utcTimer = { 0 };
 
@@ -394,7 +399,10 @@ long Date::parse(String inputString) {
         auto now = std::chrono::system_clock::now();
         std::time_t now_c = std::chrono::system_clock::to_time_t(now);
         struct tm currentTime;
-        localtime_r(&now_c, &currentTime);
+        {
+            std::lock_guard<std::mutex> guard(Date::timeZoneMutex());
+            localtime_r(&now_c, &currentTime);
+        }
 
         currentTime.tm_year += 1900;
         int defaultCenturyStart = currentTime.tm_year - 80;
@@ -431,6 +439,7 @@ long Date::parse(String inputString) {
     localTimer.tm_isdst = -1;
 
     if (timeZoneOffset == -1) {
+        std::lock_guard<std::mutex> guard(Date::timeZoneMutex());
         return mktime(&localTimer) * 1000;
     }
 
@@ -486,7 +495,10 @@ String Date::getSequenceChar(const String &inputString, int &index) {
 
 void Date::updateDateStatus() {
     // Update changes
-    this->timer = mktime(&this->localTimer);
+    {
+        std::lock_guard<std::mutex> guard(Date::timeZoneMutex());
+        this->timer = mktime(&this->localTimer);
+    }
 
     String pattern;
 
@@ -523,16 +535,22 @@ void Date::initializeDate(int year, int month, int date,
     localTimer.tm_sec = second;
     localTimer.tm_isdst = -1;
 
-    this->timer = mktime(&localTimer);
-    tzset();
-    localtime_r(&this->timer, &this->localTimer);
+    {
+        std::lock_guard<std::mutex> guard(Date::timeZoneMutex());
+        this->timer = mktime(&localTimer);
+        tzset();
+        localtime_r(&this->timer, &this->localTimer);
+    }
     this->updateDateStatus();
 }
 
 void Date::initializeDate(long timestamp) {
     time_t ts = timestamp;
-    tzset();
-    localtime_r(&ts, &this->localTimer);
+    {
+        std::lock_guard<std::mutex> guard(Date::timeZoneMutex());
+        tzset();
+        localtime_r(&ts, &this->localTimer);
+    }
     this->updateDateStatus();
 }
 
@@ -540,7 +558,10 @@ String Date::timeToString(String pattern, const tm *timeManagement) const {
     size_t size = 100;
 
     string holdResult = static_cast<string> (calloc(size, sizeof(char)));
-    strftime(holdResult, size, pattern.toCharPointer(), timeManagement);
+    {
+        std::lock_guard<std::mutex> guard(Date::timeZoneMutex());
+        strftime(holdResult, size, pattern.toCharPointer(), timeManagement);
+    }
 
     String result = holdResult;
     free(holdResult);
diff --git a/library/Java/Util/Date/Date.hpp b/library/Java/Util/Date/Date.hpp
index 66a6b7d..3bcd6b1 100755
--- a/library/Java/Util/Date/Date.hpp
+++ b/library/Java/Util/Date/Date.hpp
@@ -30,6 +30,7 @@
 
 #include "../../Lang.hpp"
 #include "../ArrayList/ArrayList.hpp"
+#include <mutex>
 
 using namespace Java::Lang;
 
@@ -112,6 +113,13 @@ namespace Java {
 						static String removeBracket(String inputString);
 				
 				public:
+						/**
+						 * Held by whoever uses the time zone of the process, or sets it for a moment
+						 *
+						 * @return std::mutex &
+						 */
+						static std::mutex &timeZoneMutex();
+
 						/**
 						 * Default constructor
 						 */
-- 
2.43.0


From 4fdcad5411103f9e92cf997527c7617ad3d1f967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:06 +0000
Subject: [PATCH 118/118] fix: printing an object from several threads wrote
 into the object

---
 library/Java/Lang/StringBuilder/StringBuilder.cpp |  4 ++--
 library/Java/Lang/StringBuilder/StringBuilder.hpp |  1 -
 library/Java/Util/ArrayList/ArrayList.hpp         | 12 +++++-------
 library/Java/Util/BitSet/BitSet.cpp               | 14 +-------------
 library/Java/Util/BitSet/BitSet.hpp               |  8 --------
 library/Java/Util/HashMap/HashMap.hpp             | 12 +++++-------
 6 files changed, 13 insertions(+), 38 deletions(-)

diff --git a/library/Java/Lang/StringBuilder/StringBuilder.cpp b/library/Java/Lang/StringBuilder/StringBuilder.cpp
index ac8ae6d..bcd49c5 100755
--- a/library/Java/Lang/StringBuilder/StringBuilder.cpp
+++ b/library/Java/Lang/StringBuilder/StringBuilder.cpp
@@ -674,9 +674,9 @@ String StringBuilder::toString() const {
 		content[index] = this->original[index];
 	}
 	content[this->currentLength] = '\0';
-	this->backupOriginalForToString = content;
+	String result = content;
 	free(content);
-	return this->backupOriginalForToString;
+	return result;
 }
 
 void StringBuilder::trimToSize() {
diff --git a/library/Java/Lang/StringBuilder/StringBuilder.hpp b/library/Java/Lang/StringBuilder/StringBuilder.hpp
index 10d2065..2232f1f 100644
--- a/library/Java/Lang/StringBuilder/StringBuilder.hpp
+++ b/library/Java/Lang/StringBuilder/StringBuilder.hpp
@@ -41,7 +41,6 @@ namespace Java {
                 {
                 private:
                         string original = nullptr;
-                        mutable String backupOriginalForToString;
                         int currentLength = 0;
                         int currentCapacity = 0;
                 
diff --git a/library/Java/Util/ArrayList/ArrayList.hpp b/library/Java/Util/ArrayList/ArrayList.hpp
index fb20e6a..85ce1f2 100755
--- a/library/Java/Util/ArrayList/ArrayList.hpp
+++ b/library/Java/Util/ArrayList/ArrayList.hpp
@@ -63,7 +63,6 @@ namespace Java {
 
 		private:
 			std::vector<E> original;
-			String backup;
 			typedef E *_iterator;
 			typedef const E *_const_iterator;
 
@@ -519,12 +518,11 @@ namespace Java {
 			 */
 			String toString() {
 				if (this->size() == 0) {
-					this->backup = "[]";
-					return this->backup;
+					return "[]";
 				}
 
 				boolean valueIsString = false;
-				this->backup = "[";
+				String result = "[";
 				String commaAndSpace = ", ";
 				String endArrayList = "]";
 				String appendString;
@@ -551,11 +549,11 @@ namespace Java {
 					if (index != this->size() - 1) {
 						appendString += commaAndSpace;
 					}
-					this->backup += appendString;
+					result += appendString;
 				}
 
-				this->backup += endArrayList;
-				return this->backup;
+				result += endArrayList;
+				return result;
 			}
 
 			/**
diff --git a/library/Java/Util/BitSet/BitSet.cpp b/library/Java/Util/BitSet/BitSet.cpp
index aa4721f..4568311 100755
--- a/library/Java/Util/BitSet/BitSet.cpp
+++ b/library/Java/Util/BitSet/BitSet.cpp
@@ -111,13 +111,6 @@ void BitSet::trimToSize() {
     }
 }
 
-void BitSet::cleanUp() {
-    if (this->backupForToString != nullptr) {
-        free(this->backupForToString);
-        this->backupForToString = nullptr;
-    }
-}
-
 BitSet::BitSet() {
     this->initializeWords(BITS_PER_WORD);
     this->sizeIsSticky = false;
@@ -144,7 +137,6 @@ BitSet::BitSet(const BitSet &bitSet){
 }
 
 BitSet::~BitSet() {
-    this->cleanUp();
 }
 
 void BitSet::bitAnd(const BitSet &set) {
@@ -728,10 +720,7 @@ String BitSet::toString() const {
     }
     stringBuilder.append('}');
 
-    free(this->backupForToString);
-    this->backupForToString = stringCopy(stringBuilder.toString().toCharPointer());
-
-    return this->backupForToString;
+    return stringBuilder.toString();
 }
 
 BitSet BitSet::valueOf(const Array<byte> &bytes) {
@@ -772,7 +761,6 @@ boolean BitSet::operator==(const BitSet &target) const {
 }
 
 BitSet& BitSet::operator=(const BitSet &target) {
-    this->cleanUp();
     this->words = Arrays::copyOf(target.words, target.words.length);
     this->wordsInUse = target.wordsInUse;
     this->sizeIsSticky = target.sizeIsSticky;
diff --git a/library/Java/Util/BitSet/BitSet.hpp b/library/Java/Util/BitSet/BitSet.hpp
index d5bf326..67f69bd 100755
--- a/library/Java/Util/BitSet/BitSet.hpp
+++ b/library/Java/Util/BitSet/BitSet.hpp
@@ -139,14 +139,6 @@ namespace Java {
              */
             void trimToSize();
 
-            /**
-             * Free resources.
-             */
-            void cleanUp();
-
-        private:
-            mutable string backupForToString = nullptr;
-
         public:
 
             /**
diff --git a/library/Java/Util/HashMap/HashMap.hpp b/library/Java/Util/HashMap/HashMap.hpp
index 0dda25e..35ae436 100755
--- a/library/Java/Util/HashMap/HashMap.hpp
+++ b/library/Java/Util/HashMap/HashMap.hpp
@@ -44,7 +44,6 @@ namespace Java {
 
 		private:
 			std::unordered_map<K, V> original;
-			String backup;
 			typedef typename std::unordered_map<K, V>::iterator IteratorType;
 			typedef typename std::unordered_map<K, V>::const_iterator ConstIteratorType;
 
@@ -564,11 +563,10 @@ namespace Java {
 			 */
 			String toString() {
 				if (this->size() == 0) {
-					this->backup = "{}";
-					return this->backup;
+					return "{}";
 				}
 
-				backup = "{";
+				String result = "{";
 				String commaAndSpace = ", ";
 				String colonAndSpace = ": ";
 				String endString = "}";
@@ -615,11 +613,11 @@ namespace Java {
 						appendValueString += commaAndSpace;
 					}
 
-					this->backup += appendKString + colonAndSpace + appendValueString;
+					result += appendKString + colonAndSpace + appendValueString;
 				}
 
-				this->backup += endString;
-				return this->backup;
+				result += endString;
+				return result;
 			}
 		};
 	}  // namespace Util
-- 
2.43.0

