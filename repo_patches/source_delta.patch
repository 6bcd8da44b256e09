From 29cbae80e91492b6f342e86612d4015a0856d1b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:00 +0000
Subject: [PATCH 01/99] fix: make TransparentQueue::swap() compile and exchange
 queues

---
 include/bcl/transparent_queue.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/bcl/transparent_queue.h b/include/bcl/transparent_queue.h
index 64d367d..65775ec 100644
--- a/include/bcl/transparent_queue.h
+++ b/include/bcl/transparent_queue.h
@@ -177,7 +177,9 @@ public:
     if (mIsSingle) {
       if (TQ.mIsSingle) {
         std::swap(mValue, TQ.mValue);
-        std::swap(mIsEmpty, TQ.mIsEmpty);
+        bool IsEmpty = mIsEmpty;
+        mIsEmpty = TQ.mIsEmpty;
+        TQ.mIsEmpty = IsEmpty;
       } else {
         Ty *Tmp = mValue;
         mIsSingle = false;
@@ -188,14 +190,14 @@ public:
       }
     } else {
       if (TQ.mIsSingle) {
-        Ty *Tmp = TQ.Value;
+        Ty *Tmp = TQ.mValue;
         TQ.mIsSingle = false;
         TQ.mQueue = mQueue;
         mIsSingle = true;
         mIsEmpty = TQ.mIsEmpty;
         mValue = Tmp;
       } else {
-        mQueue->swap(TQ.mQueue);
+        mQueue->swap(*TQ.mQueue);
       }
     }
   }
-- 
2.43.0


From 26814223bf0937dde94dc30af723761eec83a988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:00 +0000
Subject: [PATCH 02/99] fix: release the old storage and return a value in
 TransparentQueue assignments

---
 include/bcl/transparent_queue.h | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/include/bcl/transparent_queue.h b/include/bcl/transparent_queue.h
index 65775ec..a46ad53 100644
--- a/include/bcl/transparent_queue.h
+++ b/include/bcl/transparent_queue.h
@@ -67,12 +67,17 @@ public:
 
   /// Copy assignment.
   TransparentQueue & operator=(const TransparentQueue &TQ) {
+    if (this == &TQ)
+      return *this;
+    if (!mIsSingle)
+      delete mQueue;
     mIsSingle = TQ.mIsSingle;
     mIsEmpty = TQ.mIsEmpty;
     if (mIsSingle)
       mValue = TQ.mValue;
     else
       mQueue = new Container(*TQ.mQueue);
+    return *this;
   }
 
   /// Move constructor.
@@ -85,11 +90,16 @@ public:
 
   /// Move assignment.
   TransparentQueue & operator=(TransparentQueue &&TQ) {
+    if (this == &TQ)
+      return *this;
+    if (!mIsSingle)
+      delete mQueue;
     mIsSingle = TQ.mIsSingle;
     mIsEmpty = TQ.mIsEmpty;
     std::memmove(&mQueue, &TQ.mQueue, sizeof(TQ.mQueue));
     TQ.mIsSingle = true;
     TQ.mIsEmpty = true;
+    return *this;
   }
 
   /// Removes allocated memory if it is necessary.
-- 
2.43.0


From e786d914a40845b161f3b2ed5fc0fec660e04e8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:13 +0000
Subject: [PATCH 03/99] fix: a moved-from TransparentQueue no longer pops the
 moved element

---
 include/bcl/transparent_queue.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/bcl/transparent_queue.h b/include/bcl/transparent_queue.h
index a46ad53..1fd8e7c 100644
--- a/include/bcl/transparent_queue.h
+++ b/include/bcl/transparent_queue.h
@@ -86,6 +86,7 @@ public:
     std::memmove(&mQueue, &TQ.mQueue, sizeof(TQ.mQueue));
     TQ.mIsSingle = true;
     TQ.mIsEmpty = true;
+    TQ.mValue = nullptr;
   }
 
   /// Move assignment.
@@ -99,6 +100,7 @@ public:
     std::memmove(&mQueue, &TQ.mQueue, sizeof(TQ.mQueue));
     TQ.mIsSingle = true;
     TQ.mIsEmpty = true;
+    TQ.mValue = nullptr;
     return *this;
   }
 
-- 
2.43.0


From fcd0497569b2fcf7c240f13dbcd7494234869897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:19 +0000
Subject: [PATCH 04/99] fix: TransparentQueue::emplace() on an empty queue
 inserts one element

---
 include/bcl/transparent_queue.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/bcl/transparent_queue.h b/include/bcl/transparent_queue.h
index 1fd8e7c..0d8ce57 100644
--- a/include/bcl/transparent_queue.h
+++ b/include/bcl/transparent_queue.h
@@ -171,7 +171,8 @@ public:
       mIsSingle = false;
       Ty *Current = mValue;
       mQueue = new Container();
-      mQueue->push(Current);
+      if (!mIsEmpty)
+        mQueue->push(Current);
     }
     mQueue->emplace(Args...);
   }
-- 
2.43.0


From a419d1c57e482e02d349c3fc607a801df1110977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:05 +0000
Subject: [PATCH 05/99] fix: Diagnostic releases its character arrays with
 delete[]

---
 include/bcl/Diagnostic.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/bcl/Diagnostic.h b/include/bcl/Diagnostic.h
index 00bf223..fc89ce2 100644
--- a/include/bcl/Diagnostic.h
+++ b/include/bcl/Diagnostic.h
@@ -37,7 +37,7 @@ namespace bcl {
 ///
 /// All diagnostics are represented as a character string.
 class Diagnostic {
-  typedef std::vector<std::unique_ptr<const char>> Collection;
+  typedef std::vector<std::unique_ptr<const char[]>> Collection;
 
 public:
   typedef const char * value_type;
@@ -209,11 +209,11 @@ public:
       ++mInternalError;
       return false;
     }
-    mDiagnostics.emplace_back(std::unique_ptr<const char>(Buf));
+    mDiagnostics.emplace_back(std::unique_ptr<const char[]>(Buf));
     return true;
   }
 private:
-  std::unique_ptr<const char> mKind;
+  std::unique_ptr<const char[]> mKind;
   Collection mDiagnostics;
   size_type mInternalError = 0;
 };
-- 
2.43.0


From 17b8acdd54c91dd8ebd8ece7e8e15878c8bb3a51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:32 +0000
Subject: [PATCH 06/99] fix: the JSON lexer ends a string at its first quote
 that is not escaped

---
 include/bcl/Json.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/bcl/Json.h b/include/bcl/Json.h
index aae7f4e..ade3f33 100644
--- a/include/bcl/Json.h
+++ b/include/bcl/Json.h
@@ -357,7 +357,7 @@ enum class Token : char {
   COMMA = ',',
   COLON = ':',
   QUOTE = '"',
-  ESCAPE = '/',
+  ESCAPE = '\\',
   DOT = '.',
   PLUS = '+',
   MINUS = '-',
@@ -468,7 +468,9 @@ public:
     mStart = mEnd = mNext;
     if (isQuote(mJSON[mNext])) {
       for (++mNext; mNext < mJSON.size(); ++mNext) {
-        if (isQuote(mJSON[mNext]) && !isEscape(mJSON[mNext - 1])) {
+        if (isEscape(mJSON[mNext])) {
+          ++mNext; // The following character is escaped, it may be a quote.
+        } else if (isQuote(mJSON[mNext])) {
           mEnd = mNext++;
           mToken = Token::IDENTIFIER;
           return true;
-- 
2.43.0


From b41ed151a442eab97ed5ab931e9b089100dc16b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:32 +0000
Subject: [PATCH 07/99] fix: JSON unescape() does not read past a string that
 ends with an escape

---
 include/bcl/Json.h | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/include/bcl/Json.h b/include/bcl/Json.h
index ade3f33..ee9f398 100644
--- a/include/bcl/Json.h
+++ b/include/bcl/Json.h
@@ -1046,9 +1046,9 @@ template<> struct Traits<std::string> {
       return Str;
     std::string Res;
     Res.reserve(Str.length());
-    auto I = Str.begin(), EI = Str.end() - 1;
+    auto I = Str.begin(), EI = Str.end();
     while (I != EI) {
-      if (*I != '\\') {
+      if (*I != '\\' || I + 1 == EI) {
         Res += *I;
         ++I;
         continue;
@@ -1064,8 +1064,6 @@ template<> struct Traits<std::string> {
       }
       ++I;
     }
-    if (I == EI)
-      Res += Str.back();
     return Res;
   }
   inline static Position escape(String &JSON, Position Pos) {
-- 
2.43.0


From 4f0ae2d0945c05bdcf043c7a0b5e2ddd676db7dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:32 +0000
Subject: [PATCH 08/99] fix: JSON conversion of a single character reads and
 writes that character

---
 include/bcl/Json.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/bcl/Json.h b/include/bcl/Json.h
index ee9f398..fc1478a 100644
--- a/include/bcl/Json.h
+++ b/include/bcl/Json.h
@@ -1105,12 +1105,14 @@ template<> struct Traits<char> {
       Lex.json().substr(Value.first, Value.second - Value.first + 1));
     if (Tmp.size() != 1)
       return false;
-    Dest = Lex.json()[Tmp.front()];
+    Dest = Tmp.front();
     return true;
   }
   inline static void unparse(String &JSON, char Obj) {
     auto I = JSON.size() + 1;
-    JSON += '"' + Obj + '"';
+    JSON += '"';
+    JSON += Obj;
+    JSON += '"';
     Traits<std::string>::escape(JSON, I);
   }
 };
-- 
2.43.0


From 74cb32f4413d7362a62c8a9dc008b9722b717448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:32 +0000
Subject: [PATCH 09/99] fix: the JSON parser rejects a text without a complete
 first token

---
 include/bcl/Json.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/bcl/Json.h b/include/bcl/Json.h
index fc1478a..2506b20 100644
--- a/include/bcl/Json.h
+++ b/include/bcl/Json.h
@@ -763,7 +763,8 @@ template<class... Objects> class Parser {
     /// Converts JSON string to a specified Ty.
     template<class Ty> static bool parse(Ty &Obj, Lexer &Lex) {
       Lex.resetPosition();
-      Lex.goToNext();
+      if (!Lex.goToNext())
+        return false;
       if (!Traits<Ty>::parse(Obj, Lex)) {
         Lex.errors().insert(JSON_ERROR(6), Lex.start());
         return false;
-- 
2.43.0


From 9832b0c79f12c0033db9d7e961b20b71c144c33f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:32 +0000
Subject: [PATCH 10/99] fix: the JSON parser accepts white space after a value
 and reports what else follows it

---
 include/bcl/Json.h | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/include/bcl/Json.h b/include/bcl/Json.h
index 2506b20..946a22d 100644
--- a/include/bcl/Json.h
+++ b/include/bcl/Json.h
@@ -247,6 +247,7 @@
 #define JSON_ERROR_7 "uninitialized elements in array"
 #define JSON_ERROR_8 "target object type does not support duplicate of keys"
 #define JSON_ERROR_9 "illegal value"
+#define JSON_ERROR_10 "unexpected character '%c' end of string expected"
 #define JSON_ERROR(C) C, JSON_ERROR_##C
 
 #define JSON_OBJECT_BEGIN(Object_) \
@@ -619,6 +620,13 @@ public:
   // JSON string.
   Position next() const noexcept { return mNext; }
 
+  /// Returns true if only white space follows a current token.
+  bool atEnd() const noexcept {
+    auto I = mNext;
+    for (; I < mJSON.size() && std::isspace(mJSON[I]); ++I);
+    return I >= mJSON.size();
+  }
+
   /// Returns true if a current token is equal to a specified one.
   bool is(Token Token) const noexcept { return mToken == Token; }
 
@@ -769,12 +777,12 @@ template<class... Objects> class Parser {
         Lex.errors().insert(JSON_ERROR(6), Lex.start());
         return false;
       }
-      if (Lex.next() < Lex.json().size()) {
-        Lex.goToNext();
-        Lex.checkSpecial(Token::COMMA);
-        return false;
-      }
-      return true;
+      if (Lex.atEnd())
+        return true;
+      Lex.goToNext();
+      Lex.errors().insert(JSON_ERROR(10), Lex.start(),
+        Lex.json()[Lex.start()]);
+      return false;
     }
 
     /// Creates functor to convert JSON string to a type with a specified name.
-- 
2.43.0


From 09b6c7cd76bf537e8bdc3ccb8fb4f805f5a8039c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:07 +0000
Subject: [PATCH 11/99] fix: JSON conversion releases a partly read array with
 delete[]

---
 include/bcl/Json.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/bcl/Json.h b/include/bcl/Json.h
index 946a22d..eeb960b 100644
--- a/include/bcl/Json.h
+++ b/include/bcl/Json.h
@@ -1316,7 +1316,7 @@ template<> struct Traits<char *> {
           throw 0;
       }
       catch (...) {
-        if (TmpDest) { try { delete TmpDest; } catch (...) {} }
+        if (TmpDest) { try { delete[] TmpDest; } catch (...) {} }
         return false;
       }
     } else {
@@ -1329,7 +1329,7 @@ template<> struct Traits<char *> {
         TmpDest[Unescaped.length()] = '\0';
       }
       catch (...) {
-        if (TmpDest) { try { delete TmpDest; } catch (...) {} }
+        if (TmpDest) { try { delete[] TmpDest; } catch (...) {} }
         return false;
       }
     }
@@ -1392,7 +1392,7 @@ template<class Ty> struct Traits<Ty *> {
           throw 0;
       }
       catch (...) {
-        if (TmpDest) { try { delete TmpDest; } catch (...) {} }
+        if (TmpDest) { try { delete[] TmpDest; } catch (...) {} }
         return false;
       }
     } else {
-- 
2.43.0


From a6a1766acb8ba46f80fdb38b53d42d1a4d3d0634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:07 +0000
Subject: [PATCH 12/99] fix: the JSON lexer does not take letters for numbers,
 identifiers and keywords

---
 include/bcl/Json.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/bcl/Json.h b/include/bcl/Json.h
index eeb960b..7574ea3 100644
--- a/include/bcl/Json.h
+++ b/include/bcl/Json.h
@@ -516,7 +516,9 @@ public:
         return true;
     }
     mEnd = mNext;
-    mToken = static_cast<Token>(mJSON[mStart]);
+    // Letters are used to encode tokens which comprise several characters.
+    if (!std::isalpha(mJSON[mStart]))
+      mToken = static_cast<Token>(mJSON[mStart]);
     ++mNext;
     return true;
   }
-- 
2.43.0


From 4d47a579c31bc4a2a6afadaf3a0c838831e9a20a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:07 +0000
Subject: [PATCH 13/99] fix: JSON conversion to text rejects punctuation in
 place of a value

---
 include/bcl/Json.h | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/include/bcl/Json.h b/include/bcl/Json.h
index 7574ea3..9fcf6ef 100644
--- a/include/bcl/Json.h
+++ b/include/bcl/Json.h
@@ -552,9 +552,7 @@ public:
   /// \return If a current token is not an identifier and a number this method
   /// returns false and add appropriate error in the errors collection.
   bool checkValue() {
-    if (is(Token::IDENTIFIER) || is(Token::NUMBER) ||
-        isKeyword(Keyword::TRUE) || isKeyword(Keyword::FALSE) ||
-        isKeyword(Keyword::NO_VALUE))
+    if (isValue())
       return true;
     mErrors.insert(JSON_ERROR(5), mStart, mJSON[mStart]);
     return false;
@@ -647,6 +645,11 @@ public:
     return is(Token::KEYWORD) && mKeyword == K;
   }
 
+  /// Return true if a current token is an identifier, a number or a keyword.
+  bool isValue() const noexcept {
+    return is(Token::IDENTIFIER) || is(Token::NUMBER) || is(Token::KEYWORD);
+  }
+
   /// Returns container of errors.
   bcl::Diagnostic & errors() noexcept { return mErrors; }
 
@@ -1091,6 +1094,8 @@ template<> struct Traits<std::string> {
     return Pos + 1;
   }
   inline static bool parse(std::string &Dest, Lexer &Lex) noexcept {
+    if (!Lex.isValue())
+      return false;
     try {
       auto Value = Lex.discardQuote();
       Dest = unescape(
@@ -1111,6 +1116,8 @@ template<> struct Traits<std::string> {
 
 template<> struct Traits<char> {
   inline static bool parse(char &Dest, Lexer &Lex) noexcept {
+    if (!Lex.isValue())
+      return false;
     auto Value = Lex.discardQuote();
     auto Tmp = Traits<std::string>::unescape(
       Lex.json().substr(Value.first, Value.second - Value.first + 1));
@@ -1321,6 +1328,8 @@ template<> struct Traits<char *> {
         if (TmpDest) { try { delete[] TmpDest; } catch (...) {} }
         return false;
       }
+    } else if (!Lex.isValue()) {
+      return false;
     } else {
       try {
         auto Value = Lex.discardQuote();
-- 
2.43.0


From eaf158dbd0f0d28803efe83327e160d8ff8df7e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:07 +0000
Subject: [PATCH 14/99] fix: JSON conversion to unsigned rejects values out of
 range

---
 include/bcl/Json.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/bcl/Json.h b/include/bcl/Json.h
index 9fcf6ef..9c37715 100644
--- a/include/bcl/Json.h
+++ b/include/bcl/Json.h
@@ -228,6 +228,7 @@
 #include "Diagnostic.h"
 #include "utility.h"
 #include <cctype>
+#include <limits>
 #include <map>
 #include <memory>
 #include <optional>
@@ -1191,7 +1192,12 @@ template<> struct Traits<unsigned> {
     try {
       std::string Str;
       Traits<std::string>::parse(Str, Lex);
-      Dest = static_cast<unsigned>(std::stoul(Str));
+      auto Value = std::stoul(Str);
+      // A negative value is wrapped around (see std::stoul).
+      if (Value > std::numeric_limits<unsigned>::max() &&
+          Str[Str.find_first_not_of(" \t\n\v\f\r")] != '-')
+        return false;
+      Dest = static_cast<unsigned>(Value);
     }
     catch (...) {
       return false;
-- 
2.43.0


From 39265322b30ea852c6a40c83fc0be1aa1fcedb03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:07 +0000
Subject: [PATCH 15/99] fix: JSON conversion to a map rejects a key that cannot
 be converted

---
 include/bcl/Json.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/bcl/Json.h b/include/bcl/Json.h
index 9c37715..7fd60db 100644
--- a/include/bcl/Json.h
+++ b/include/bcl/Json.h
@@ -1588,8 +1588,10 @@ struct Traits<std::map<KeyTy, Ty, Compare, Allocator>> {
     Lex.storePosition();
     Lex.setPosition(Key.first);
     KeyTy KeyValue;
-    Traits<KeyTy>::parse(KeyValue, Lex);
+    bool IsOk = Traits<KeyTy>::parse(KeyValue, Lex);
     Lex.restorePosition();
+    if (!IsOk)
+      return false;
     auto Pair = Dest.emplace(KeyValue, Ty());
     if (!Pair.second) {
       Lex.errors().insert(JSON_ERROR(8), Lex.start());
@@ -1641,8 +1643,10 @@ struct Traits<std::multimap<KeyTy, Ty, Compare, Allocator>> {
     Lex.storePosition();
     Lex.setPosition(Key.first);
     KeyTy KeyValue;
-    Traits<KeyTy>::parse(KeyValue, Lex);
+    bool IsOk = Traits<KeyTy>::parse(KeyValue, Lex);
     Lex.restorePosition();
+    if (!IsOk)
+      return false;
     auto Itr = Dest.emplace(KeyValue, Ty());
     if (Itr == Dest.end())
       return false;
-- 
2.43.0


From 4d638325585585d691e1548d277a2d2d4a58aa65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:07 +0000
Subject: [PATCH 16/99] fix: JSON conversion to std::optional rejects a value
 that cannot be converted

---
 include/bcl/Json.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/bcl/Json.h b/include/bcl/Json.h
index 7fd60db..f4eecc9 100644
--- a/include/bcl/Json.h
+++ b/include/bcl/Json.h
@@ -1884,7 +1884,8 @@ template<class T> struct Traits<std::optional<T>> {
         Dest.reset();
       } else {
         T Tmp;
-        Traits<T>::parse(Tmp, Lex);
+        if (!Traits<T>::parse(Tmp, Lex))
+          return false;
         Dest = std::move(Tmp);
       }
     }
-- 
2.43.0


From 9a766cd0e7709a802b3e95eb61c130afbba4143d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:07 +0000
Subject: [PATCH 17/99] fix: a sequence without representable values is written
 as an empty JSON object

---
 include/bcl/Json.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/bcl/Json.h b/include/bcl/Json.h
index f4eecc9..ab22eff 100644
--- a/include/bcl/Json.h
+++ b/include/bcl/Json.h
@@ -1519,8 +1519,8 @@ struct Traits<std::vector<Ty, Allocator>> {
           Traits<unsigned long long>::unparse(JSON, I);
           JSON += "\":" + Values[I] + ",";
         }
-        assert(JSON.back() == ',' && "A delimiter must be a comma!");
-        JSON.erase(JSON.size() - 1);
+        if (JSON.back() == ',')
+          JSON.erase(JSON.size() - 1);
         JSON += '}';
       } else {
         JSON += '[';
-- 
2.43.0


From 607d0308c1a25c878a480810d4810bf4ae2ba782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:36 +0000
Subject: [PATCH 18/99] fix: a JSON field is found by its name also if the name
 contains escapes

---
 include/bcl/Json.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/bcl/Json.h b/include/bcl/Json.h
index ab22eff..1ce8078 100644
--- a/include/bcl/Json.h
+++ b/include/bcl/Json.h
@@ -1707,9 +1707,9 @@ public:
   /// for example '{'.
   template<class CellTy> void operator()(CellTy *Cell) {
     typedef typename CellTy::CellKey CellKey;
-    if (mLex.json().compare(
-          mKey.first + 1, mKey.second - mKey.first - 1 ,
-          CellTraits<CellKey>::name()) != 0)
+    if (Traits<std::string>::unescape(mLex.json().substr(
+          mKey.first + 1, mKey.second - mKey.first - 1)) !=
+        CellTraits<CellKey>::name())
       return;
     mHasError = !CellTraits<CellKey>::parse(
       Cell->template value<CellKey>(), mLex);
-- 
2.43.0


From c2889ee96c3d20e20258956abea6c0f51187232d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:36 +0000
Subject: [PATCH 19/99] fix: a JSON object does not end inside an unknown
 compound field

---
 include/bcl/Json.h | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/include/bcl/Json.h b/include/bcl/Json.h
index 1ce8078..427dc6d 100644
--- a/include/bcl/Json.h
+++ b/include/bcl/Json.h
@@ -1711,16 +1711,21 @@ public:
           mKey.first + 1, mKey.second - mKey.first - 1)) !=
         CellTraits<CellKey>::name())
       return;
+    mIsKnown = true;
     mHasError = !CellTraits<CellKey>::parse(
       Cell->template value<CellKey>(), mLex);
   }
 
   /// Returns true if errors have been occurred during conversion.
   bool hasError() const noexcept { return mHasError; }
+
+  /// Returns true if there is a cell with a specified key.
+  bool isKnown() const noexcept { return mIsKnown; }
 private:
   Lexer &mLex;
   std::pair<Position, Position> mKey;
   bool mHasError;
+  bool mIsKnown = false;
 };
 
 /// This functor unparses JSON object represented as a bcl::StaticMap. It should
@@ -1765,6 +1770,12 @@ template<class... Args> struct Traits<bcl::StaticMap<Args...>> {
       std::pair<Position, Position> Key) {
     detail::ParseCellFunctor Parse(Key, Lex);
     Dest.for_each(Parse);
+    // A compound value which is not known can not be skipped as a scalar one.
+    if (!Parse.isKnown() &&
+        (Lex.is(Token::LEFT_BRACE) || Lex.is(Token::LEFT_BRACKET))) {
+      Lex.errors().insert(JSON_ERROR(9), Lex.start());
+      return false;
+    }
     return !Parse.hasError();
   }
   inline static void unparse(String &JSON, const bcl::StaticMap<Args...> &Obj) {
-- 
2.43.0


From 84dd40ba8dca598a315a613ad99afc8b239e90cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:03 +0000
Subject: [PATCH 20/99] fix: indexes of a JSON array are converted in the same
 way when they are counted and used

---
 include/bcl/Json.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/bcl/Json.h b/include/bcl/Json.h
index 427dc6d..8d450b6 100644
--- a/include/bcl/Json.h
+++ b/include/bcl/Json.h
@@ -1359,8 +1359,8 @@ template<> struct Traits<char *> {
       // Note that Idx will be successfully converted because this check has
       // been performed when memory for the Dest array has been allocated.
       // This also implies that Dest[Idx] can not produce out of range exception.
-      auto Idx = std::stoull(
-        Lex.json().substr(Key.first + 1, Key.second - Key.first - 1));
+      auto Idx = std::stoull(Traits<std::string>::unescape(
+        Lex.json().substr(Key.first + 1, Key.second - Key.first - 1)));
       return Traits<char>::parse(Dest[Idx], Lex);
     } else {
       return Traits<char>::parse(Dest[Key.second], Lex);
@@ -1433,8 +1433,8 @@ template<class Ty> struct Traits<Ty *> {
       // Note that Idx will be successfully converted because this check has
       // been performed when memory for the Dest array has been allocated.
       // This also implies that Dest[Idx] can not produce out of range exception.
-      auto Idx = std::stoull(
-        Lex.json().substr(Key.first + 1, Key.second - Key.first - 1));
+      auto Idx = std::stoull(Traits<std::string>::unescape(
+        Lex.json().substr(Key.first + 1, Key.second - Key.first - 1)));
       return Traits<Ty>::parse(Dest[Idx], Lex);
     } else {
       return Traits<Ty>::parse(Dest[Key.second], Lex);
@@ -1493,8 +1493,8 @@ struct Traits<std::vector<Ty, Allocator>> {
       // Note that Idx will be successfully converted because this check has
       // been performed when memory for the Dest array has been allocated.
       // This also implies that Dest[Idx] can not produce out of range exception.
-      auto Idx = std::stoull(
-        Lex.json().substr(Key.first + 1, Key.second - Key.first - 1));
+      auto Idx = std::stoull(Traits<std::string>::unescape(
+        Lex.json().substr(Key.first + 1, Key.second - Key.first - 1)));
       return Traits<Ty>::parse(Dest[Idx], Lex);
     } else {
       return Traits<Ty>::parse(Dest[Key.second], Lex);
-- 
2.43.0


From 249c31fb480174d6343f0977beb700061214eed0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:22 +0000
Subject: [PATCH 21/99] fix: a JSON array with a repeated and a missing index
 is rejected

---
 include/bcl/Json.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/bcl/Json.h b/include/bcl/Json.h
index 8d450b6..a1b06fe 100644
--- a/include/bcl/Json.h
+++ b/include/bcl/Json.h
@@ -1791,6 +1791,7 @@ Parser<Objects...>::numberOfKeys(Lexer &Lex) {
   Lex.storePosition();
   Position MaxIdx = 0;
   Position Count = 0;
+  std::set<unsigned long long> Indexes;
   Token Last;
   if (Lex.is(Token::LEFT_BRACKET))
     Last = Token::RIGHT_BRACKET;
@@ -1812,6 +1813,10 @@ Parser<Objects...>::numberOfKeys(Lexer &Lex) {
       unsigned long long Idx;
       if (!Traits<unsigned long long>::parse(Idx, Lex))
         return std::make_tuple(0, 0, false);
+      if (!Indexes.insert(Idx).second) {
+        Lex.errors().insert(JSON_ERROR(8), Lex.start());
+        return std::make_tuple(0, 0, false);
+      }
       MaxIdx = static_cast<Position>(Idx > MaxIdx ? Idx : MaxIdx);
       if (!Lex.goToNext() || !Lex.checkSpecial(Token::COLON) ||
           !Lex.goToNext())
-- 
2.43.0


From 5007804a3dc6305f6828336579cce10abca5381d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:25 +0000
Subject: [PATCH 22/99] fix: the name of a JSON object is found after fields
 with compound values

---
 include/bcl/Json.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/bcl/Json.h b/include/bcl/Json.h
index a1b06fe..2854cdd 100644
--- a/include/bcl/Json.h
+++ b/include/bcl/Json.h
@@ -1034,10 +1034,12 @@ private:
         mNameEnd = mLex.end();
         return true;
       }
-      if (((mLex.is(Token::LEFT_BRACE) || mLex.is(Token::LEFT_BRACKET)) &&
-           !mLex.skipInternal()) ||
-          !mLex.checkValue())
+      if (mLex.is(Token::LEFT_BRACE) || mLex.is(Token::LEFT_BRACKET)) {
+        if (!mLex.skipInternal())
+          return false;
+      } else if (!mLex.checkValue()) {
         return false;
+      }
       if (!mLex.goToNext())
         return false;
       if (mLex.is(Token::RIGHT_BRACE) && mLex.next() < mLex.json().size())
-- 
2.43.0


From 8a50c500cf5ca2fc371d1b6276fbf22c7ed02264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:46 +0000
Subject: [PATCH 23/99] fix: an error is recorded if a key of a JSON object is
 not a string

---
 include/bcl/Json.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bcl/Json.h b/include/bcl/Json.h
index 2854cdd..083222f 100644
--- a/include/bcl/Json.h
+++ b/include/bcl/Json.h
@@ -1020,7 +1020,7 @@ private:
     if (!mLex.goToNext() || !mLex.checkSpecial(Token::LEFT_BRACE))
       return false;
     while (mLex.goToNext()) {
-      if (!mLex.is(Token::IDENTIFIER))
+      if (!mLex.checkIdentifier())
         return false;
       bool IsName = (mLex.json().compare(
         mLex.start() + 1, mLex.end() - mLex.start() - 1, getNameKey()) == 0);
-- 
2.43.0


From c3a8d69414ee5ba0b44359bb0f3ab01e95b885b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:17 +0000
Subject: [PATCH 24/99] fix: JSON conversion of diagnostics keeps texts and
 kinds with spaces

---
 include/bcl/Json.h | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/include/bcl/Json.h b/include/bcl/Json.h
index 083222f..cb9faaa 100644
--- a/include/bcl/Json.h
+++ b/include/bcl/Json.h
@@ -1851,23 +1851,23 @@ template<> struct Traits<bcl::Diagnostic> {
   }
   inline static bool parse(bcl::Diagnostic &Dest, Lexer &Lex,
     std::pair<Position, Position>) {
-    const char *Msg;
-    if (!Traits<const char *>::parse(Msg, Lex))
+    std::string Msg;
+    if (!Traits<std::string>::parse(Msg, Lex))
       return false;
-    char *Kind = new char[std::strlen(Msg) + 1];
-    char *Buf = new char[std::strlen(Msg) + 1];
+    // The text after a prefix "<Kind> C<Code>(<Pos>): " is kept as is.
+    auto KindSize = std::strlen(Dest.getKind());
     std::size_t Code;
     std::uintmax_t Pos;
-    auto ArgNum = std::sscanf(Msg, "%s C%zu(%ju): %s", Kind, &Code, &Pos, Buf);
-    if (ArgNum != 4 || std::strcmp(Kind, Dest.getKind()) != 0 ||
-        !Dest.insert(Code, "%s", Pos, Buf)) {
+    int PrefixSize = 0;
+    if (Msg.compare(0, KindSize, Dest.getKind()) != 0 ||
+        std::sscanf(Msg.c_str() + KindSize, " C%zu(%ju):%n",
+          &Code, &Pos, &PrefixSize) != 2 || PrefixSize == 0 ||
+        Msg[KindSize + PrefixSize] != ' ' ||
+        !Dest.insert(Code, "%s", Pos,
+          Msg.c_str() + KindSize + PrefixSize + 1)) {
       Lex.errors().insert(JSON_ERROR(9), Lex.start());
-      delete[]Kind;
-      delete[]Buf;
       return false;
     }
-    delete[]Kind;
-    delete[]Buf;
     return true;
   }
   inline static void unparse(String &JSON, const bcl::Diagnostic &Obj) {
-- 
2.43.0


From 0052f408ec41b99451f413d16c2a5f3f5c19b7ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:34 +0000
Subject: [PATCH 25/99] fix: numbers of guards and computed monomials of an
 equation are returned

---
 include/bcl/Equation.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/bcl/Equation.h b/include/bcl/Equation.h
index e35056d..bf9ef9f 100644
--- a/include/bcl/Equation.h
+++ b/include/bcl/Equation.h
@@ -143,7 +143,7 @@ public:
     return guard_const_range{guard_begin(), guard_end()};
   }
 
-  std::size_t guard_size() const noexcept { mGuards.second; }
+  std::size_t guard_size() const noexcept { return mGuards.second; }
 
   using inverse_iterator = typename InverseGuardList::iterator;
   using inverse_range = Range<inverse_iterator>;
@@ -176,7 +176,7 @@ public:
     return inverse_const_range{inverse_begin(), inverse_end()};
   }
 
-  std::size_t inverse_size() const noexcept { mInverseGuards.second; }
+  std::size_t inverse_size() const noexcept { return mInverseGuards.second; }
 
   using computed_iterator = typename ComputedMonomList::iterator;
   using computed_range = Range<computed_iterator>;
@@ -210,7 +210,7 @@ public:
     return computed_const_range{computed_begin(), computed_end()};
   }
 
-  std::size_t computed_size() const noexcept { mComputedMonoms.second; }
+  std::size_t computed_size() const noexcept { return mComputedMonoms.second; }
 
 private:
   std::pair<GuardList, std::size_t> mGuards = {{}, 0};
-- 
2.43.0


From 0838cee75133a3db2b79f5ad4a287536b51573d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:34 +0000
Subject: [PATCH 26/99] fix: the range of instantiated equations contains the
 instantiated equations

---
 include/bcl/Equation.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bcl/Equation.h b/include/bcl/Equation.h
index bf9ef9f..a9f098a 100644
--- a/include/bcl/Equation.h
+++ b/include/bcl/Equation.h
@@ -523,7 +523,7 @@ public:
         ++I;
       } else {
         --mInstantiatedSize;
-        std::swap(mIdx[I], mIdx[mInstantiatedSize]);
+        std::swap(mRows[mIdx[I]], mRows[mIdx[mInstantiatedSize]]);
       }
     }
   }
-- 
2.43.0


From 67a44da49e6ef120db95c56c552421a8a5657f6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:34 +0000
Subject: [PATCH 27/99] fix: an equation with zero coefficients is solved
 without division by zero

---
 include/bcl/Equation.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/bcl/Equation.h b/include/bcl/Equation.h
index a9f098a..46825a6 100644
--- a/include/bcl/Equation.h
+++ b/include/bcl/Equation.h
@@ -367,6 +367,13 @@ public:
       auto GCD = euclidGCD(Row.LHS.Value, Row.RHS.Value);
       log("> solve:\n", OS);
       logEquation(Row, Info, OS);
+      if (std::get<0>(GCD) == 0) {
+        // This equation does not restrict any variable: 0 = C.
+        if (!IsSolvable && Row.Constant != 0)
+          return I;
+        assert(Row.Constant == 0 && "Equation must have solution!");
+        continue;
+      }
       if (!IsSolvable && Row.Constant % std::get<0>(GCD))
         return I;
       assert(Row.Constant % std::get<0>(GCD) == 0 &&
-- 
2.43.0


From 53f5aae7a105843767eeeccc029dd7ce83ab3c9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:34 +0000
Subject: [PATCH 28/99] fix: equations which become equations in one variable
 are solved

---
 include/bcl/Equation.h | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/include/bcl/Equation.h b/include/bcl/Equation.h
index 46825a6..ffb9d0e 100644
--- a/include/bcl/Equation.h
+++ b/include/bcl/Equation.h
@@ -362,6 +362,13 @@ public:
   std::size_t solve(ColumnInfoT &Info, StreamT &OS = Undef) {
     for (std::size_t I = 0; I < mInstantiatedSize; ++I) {
       auto &Row = mRows[mIdx[I]];
+      // If both monomials contain the same variable (it is also possible after
+      // previous substitutions) there is a single monomial A * X = C.
+      bool IsSingle = Row.LHS.Column == Row.RHS.Column;
+      if (IsSingle) {
+        Row.LHS.Value += Row.RHS.Value;
+        Row.RHS.Value = 0;
+      }
       // We want to solve binomial equation A * X + B * Y = C
       // 1. Find GCD and two coefficients X' and Y' such as GCD = A * X' + B * Y'
       auto GCD = euclidGCD(Row.LHS.Value, Row.RHS.Value);
@@ -398,10 +405,12 @@ public:
       // Y = (Y' * Q) + (A / GCD) * T, where T is any integer value.
       mSolution.emplace_back(Row.LHS.Column, 1,
         ParameterCol, Row.RHS.Value / std::get<0>(GCD), AnySolution.first);
-      mSolution.emplace_back(Row.RHS.Column, 1,
-        ParameterCol, - Row.LHS.Value / std::get<0>(GCD), AnySolution.second);
+      if (!IsSingle)
+        mSolution.emplace_back(Row.RHS.Column, 1,
+          ParameterCol, - Row.LHS.Value / std::get<0>(GCD), AnySolution.second);
+      const std::size_t NewSolutions = IsSingle ? 1 : 2;
       auto &SolutionLHS = mSolution[mSolution.size() - 1];
-      auto &SolutionRHS = mSolution[mSolution.size() - 2];
+      auto &SolutionRHS = mSolution[mSolution.size() - NewSolutions];
       log("> solution:\n", OS);
       logEquation(SolutionLHS, Info, OS);
       logEquation(SolutionRHS, Info, OS);
@@ -424,7 +433,7 @@ public:
         logEquation(RowToUpdate, Info, OS);
       }
       log("> update solution:\n", OS);
-      for (std::size_t J = 0, EJ = mSolution.size() - 2; J < EJ; ++J) {
+      for (std::size_t J = 0, EJ = mSolution.size() - NewSolutions; J < EJ; ++J) {
         auto &SolutionToUpdate = mSolution[J];
         logEquation(SolutionToUpdate, Info, OS);
         updateRow(SolutionLHS, SolutionToUpdate.Constant, SolutionToUpdate.LHS);
-- 
2.43.0


From bffe93bbc63f5b91777e59a7a10e9f1c78f18aa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:34 +0000
Subject: [PATCH 29/99] fix: values of an affine solution are not computed as
 columns

---
 include/bcl/Equation.h | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/bcl/Equation.h b/include/bcl/Equation.h
index ffb9d0e..0b44b42 100644
--- a/include/bcl/Equation.h
+++ b/include/bcl/Equation.h
@@ -483,7 +483,8 @@ public:
     for (std::size_t I = 0, EI = mSolution.size(); I < EI; ++I) {
       std::swap(Divisors[0], Divisors[I]);
       auto Production = std::accumulate(
-        Divisors.begin() + 1, Divisors.end(), 1, std::multiplies<ColumnT>());
+        Divisors.begin() + 1, Divisors.end(), ValueT(1),
+        std::multiplies<ValueT>());
       auto &S = mSolution[I];
       Production *= (S.RHS.Value * Production  <  0) ? -1 : 1;
       S.LHS.Value *= Production;
@@ -499,7 +500,7 @@ public:
   /// computed solution have non-negative free terms.
   template <class ColumnInfoT>
   void solutioWithPositiveConstant(ColumnInfoT &Info) {
-    ColumnT Min = 0;
+    ValueT Min = 0;
     for (std::size_t I = 0, EI = mSolution.size(); I < EI; ++I) {
       if (mSolution[I].Constant < Min)
         Min = mSolution[I].Constant;
@@ -561,7 +562,7 @@ public:
       OS << " computed monoms: ";
       for (auto &Monom : Row.computed_monoms())
         OS << Monom.Value << " " << Info.name(Monom.Column) << " = "
-         << Monom.Value * Info.template get<ColumnT>(Monom.Column) << " ";
+         << Monom.Value * Info.template get<ValueT>(Monom.Column) << " ";
       OS << "\n";
     }
     OS << "--- discarded ---\n";
@@ -579,7 +580,7 @@ public:
       OS << " computed monoms: ";
       for (auto &Monom : Row.computed_monoms())
         OS << Monom.Value << " " << Info.name(Monom.Column) << " = "
-         << Monom.Value * Info.template get<ColumnT>(Monom.Column) << " ";
+         << Monom.Value * Info.template get<ValueT>(Monom.Column) << " ";
       OS << "\n";
     }
   }
-- 
2.43.0


From 4b7a104f17d684d3e0f569775dc061dd5215e457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:34 +0000
Subject: [PATCH 30/99] fix: Equation.h includes the headers it uses

---
 include/bcl/Equation.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/bcl/Equation.h b/include/bcl/Equation.h
index 0b44b42..b3db6d6 100644
--- a/include/bcl/Equation.h
+++ b/include/bcl/Equation.h
@@ -25,8 +25,12 @@
 #ifndef BCL_EQUATION_H
 #define BCL_EQUATION_H
 
+#include <array>
 #include <assert.h>
+#include <cstdlib>
+#include <functional>
 #include <numeric>
+#include <string>
 #include <tuple>
 #include <type_traits>
 #include <vector>
-- 
2.43.0


From a5b9de81f2f99026df655909b152a385f9284f1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:43 +0000
Subject: [PATCH 31/99] fix: comparison of a chain iterator with a node returns
 its result

---
 include/bcl/Chain.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bcl/Chain.h b/include/bcl/Chain.h
index ee34366..a2bd30f 100644
--- a/include/bcl/Chain.h
+++ b/include/bcl/Chain.h
@@ -246,7 +246,7 @@ public:
 
   /// Compares the iterator with a node.
   bool operator==(const Ty *RHS) const noexcept {
-    mCurrent == RHS;
+    return mCurrent == RHS;
   }
 
   /// Compares the iterator with a node.
-- 
2.43.0


From 30e4ba1ac8e1a1252bc9adbec56d73dd53066e8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:43 +0000
Subject: [PATCH 32/99] fix: postdecrement of a chain iterator goes to the
 previous node

---
 include/bcl/Chain.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/bcl/Chain.h b/include/bcl/Chain.h
index a2bd30f..4dcbbf1 100644
--- a/include/bcl/Chain.h
+++ b/include/bcl/Chain.h
@@ -288,7 +288,7 @@ public:
   /// Postdecrement, this node must not be null.
   ChainIteratorC operator--(int)
       noexcept(noexcept(ChainIteratorC::operator--())) {
-    ChainIteratorC Tmp = *this; ++*this; return Tmp;
+    ChainIteratorC Tmp = *this; --*this; return Tmp;
   }
 
   /// Returns a current node.
@@ -361,7 +361,7 @@ public:
   /// Postdecrement, this node must not be null.
   ChainIterator operator--(int)
       noexcept(noexcept(ChainIterator::operator--())) {
-    ChainIterator Tmp = *this; ++*this; return Tmp;
+    ChainIterator Tmp = *this; --*this; return Tmp;
   }
 
   /// Returns a current node.
-- 
2.43.0


From 830678b9a6ac6687c1605d3f6622125bd058debb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:43 +0000
Subject: [PATCH 33/99] fix: chain iterators can be advanced (their exception
 specifications are valid)

---
 include/bcl/Chain.h | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/include/bcl/Chain.h b/include/bcl/Chain.h
index 4dcbbf1..34924e1 100644
--- a/include/bcl/Chain.h
+++ b/include/bcl/Chain.h
@@ -29,6 +29,11 @@
 #ifndef BCL_CHAIN_H
 #define BCL_CHAIN_H
 
+#include <cassert>
+#include <iterator>
+#include <type_traits>
+#include <utility>
+
 namespace bcl {
 /// \brief Simple bidirectional intrusive chain of nodes.
 ///
@@ -134,7 +139,7 @@ private:
 
 private:
   template<class, class> friend struct ChainTraits;
-  template<class, class> friend struct ChainIterator;
+  template<class, class> friend class ChainIterator;
 
   Chain *mPrev = nullptr;
   Chain *mNext = nullptr;
@@ -265,7 +270,8 @@ public:
 
   /// Preincrement, this node must not be null.
   ChainIteratorC & operator++()
-      noexcept(noexcept(ChainTraits<Ty, Tag>::getNext())) {
+      noexcept(noexcept(ChainTraits<Ty, Tag>::getNext(
+        std::declval<const Chain<Ty, Tag> *>()))) {
     assert(mCurrent && "Advancing null node!");
     mCurrent = ChainTraits<Ty, Tag>::getNext(mCurrent);
     return *this;
@@ -279,7 +285,8 @@ public:
 
   /// Predecrement, this node must not be null.
   ChainIteratorC & operator--()
-      noexcept(noexcept(ChainTraits<Ty, Tag>::getPrev())) {
+      noexcept(noexcept(ChainTraits<Ty, Tag>::getPrev(
+        std::declval<const Chain<Ty, Tag> *>()))) {
     assert(mCurrent && "Decreasing null node!!");
     mCurrent = ChainTraits<Ty, Tag>::getPrev(mCurrent);
     return *this;
@@ -296,13 +303,15 @@ public:
 
   /// Returns a next node.
   const Ty * getNext() const
-      noexcept(noexcept(ChainTraits<Ty, Tag>::getNext())) {
+      noexcept(noexcept(ChainTraits<Ty, Tag>::getNext(
+        std::declval<const Chain<Ty, Tag> *>()))) {
     return ChainTraits<Ty, Tag>::getNext(mCurrent);
   }
 
   /// Returns a previous node.
   const Ty * getPrev() const
-      noexcept(noexcept(ChainTraits<Ty, Tag>::getPrev())) {
+      noexcept(noexcept(ChainTraits<Ty, Tag>::getPrev(
+        std::declval<const Chain<Ty, Tag> *>()))) {
     return ChainTraits<Ty, Tag>::getPrev(mCurrent);
   }
 
-- 
2.43.0


From 5a3cba757b1ead253f2ef0e0d8fe2da28d66dbf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:37 +0000
Subject: [PATCH 34/99] fix: a constant node is compared with a chain iterator

---
 include/bcl/Chain.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/bcl/Chain.h b/include/bcl/Chain.h
index 34924e1..170355a 100644
--- a/include/bcl/Chain.h
+++ b/include/bcl/Chain.h
@@ -425,13 +425,13 @@ public:
 
 /// Compares a node with an iterator.
 template<class Ty, class Tag>
-bool operator==(Ty *LHS, const ChainIteratorC<Ty, Tag> &RHS) noexcept {
+bool operator==(const Ty *LHS, const ChainIteratorC<Ty, Tag> &RHS) noexcept {
   return RHS == LHS;
 }
 
 /// Compares a node with an iterator.
 template<class Ty, class Tag>
-bool operator!=(Ty *LHS, const ChainIteratorC<Ty, Tag> &RHS) noexcept {
+bool operator!=(const Ty *LHS, const ChainIteratorC<Ty, Tag> &RHS) noexcept {
   return RHS != LHS;
 }
 }
-- 
2.43.0


From 9ecdb46fcee75053aed069fa74e2527f1529c285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:09 +0000
Subject: [PATCH 35/99] fix: isDiff() does not fail if nothing is redirected

---
 include/bcl/RedirectIO.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/bcl/RedirectIO.h b/include/bcl/RedirectIO.h
index df66208..5e7868a 100644
--- a/include/bcl/RedirectIO.h
+++ b/include/bcl/RedirectIO.h
@@ -178,7 +178,8 @@ public:
     // It is necessary to perform this check because fflush(NULL) flushes all
     // opened files and this is unwanted behavior.
     if (!mFile) {
-      storeErrNo(EINVAL, "fflush");
+      if (mayRedirected())
+        storeErrNo(EINVAL, "fflush");
       return false;
     }
     if (std::fflush(mFile) != 0) {
-- 
2.43.0


From 2b894f4574fc5f3f8098aa8d5228cc45cf426a54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:09 +0000
Subject: [PATCH 36/99] fix: redirected data are returned completely if they
 contain null characters

---
 include/bcl/RedirectIO.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/bcl/RedirectIO.h b/include/bcl/RedirectIO.h
index 5e7868a..b012dd5 100644
--- a/include/bcl/RedirectIO.h
+++ b/include/bcl/RedirectIO.h
@@ -214,12 +214,12 @@ public:
       storeErrNo("fseek");
       return "";
     }
-    char Buf[100] = "\0";
+    char Buf[100];
     std::string Str;
-    while (std::fgets(Buf, 100, mFile))
-      Str += Buf;
+    while (auto Size = std::fread(Buf, 1, sizeof(Buf), mFile))
+      Str.append(Buf, Size);
     if (!std::feof(mFile)) {
-      storeErrNo("fgets");
+      storeErrNo("fread");
       if (std::fseek(mFile, Pos, SEEK_SET) != 0)
         storeErrNo("fseek");
       return "";
-- 
2.43.0


From c6946dbe87191e9056df3c2d142735e461bc53c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:36 +0000
Subject: [PATCH 37/99] fix: move assignment of RedirectIO closes the previous
 target file

---
 include/bcl/RedirectIO.h | 40 +++++++++++++++++++++++++++++-----------
 1 file changed, 29 insertions(+), 11 deletions(-)

diff --git a/include/bcl/RedirectIO.h b/include/bcl/RedirectIO.h
index b012dd5..ffb9773 100644
--- a/include/bcl/RedirectIO.h
+++ b/include/bcl/RedirectIO.h
@@ -41,7 +41,9 @@
 #include <cerrno>
 #include <cstdio>
 #include <cstring>
+#include <memory>
 #include <string>
+#include <utility>
 
 #if defined(_MSC_VER)
 # include <io.h>
@@ -130,21 +132,25 @@ public:
 
   /// Destructor closes a target file but redirected descriptor stays open and
   /// redirection is still performed.
-  ~RedirectIO() {
-    // Note that when move operation is executed destructor also called,
-    // to determine this case let us use mayRedirected().
-    // This is possible because mErrors will be unset when move is performed.
-    if (!mayRedirected() || !mFile)
-      return;
-    if (fclose(mFile) != 0)
-      storeErrNo("fclose");
-    mFile = nullptr;
-  }
+  ~RedirectIO() { close(); }
 
   RedirectIO(const RedirectIO &) = delete;
   RedirectIO & operator=(const RedirectIO &) = delete;
   RedirectIO(RedirectIO &&) = default;
-  RedirectIO & operator=(RedirectIO &&) = default;
+
+  /// Closes a current target file (see destructor) before the assignment.
+  RedirectIO & operator=(RedirectIO &&RHS) {
+    if (this != &RHS) {
+      close();
+      mErrors = std::move(RHS.mErrors);
+      mFromHandle = RHS.mFromHandle;
+      mToName = std::move(RHS.mToName);
+      mFile = RHS.mFile;
+      mDiffPos = RHS.mDiffPos;
+      mDiffStart = RHS.mDiffStart;
+    }
+    return *this;
+  }
 
   /// \brief Returns true if redirection is active, note that in case of errors
   /// this also returns true.
@@ -243,6 +249,18 @@ public:
   }
 
 private:
+  /// Closes a target file.
+  void close() {
+    // Note that when move operation is executed destructor also called,
+    // to determine this case let us use mayRedirected().
+    // This is possible because mErrors will be unset when move is performed.
+    if (!mayRedirected() || !mFile)
+      return;
+    if (fclose(mFile) != 0)
+      storeErrNo("fclose");
+    mFile = nullptr;
+  }
+
   /// Stores description of error ErrNos to the errors() container.
   ///
   /// \param [in] Number of error. This must be one of possible errno values.
-- 
2.43.0


From 9ef05c7f27fc54e3e81c9c8cb98e62399314fe81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:26 +0000
Subject: [PATCH 38/99] fix: trait::set and trait::unset accept descriptors
 with alternative traits

---
 include/bcl/trait.h | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/include/bcl/trait.h b/include/bcl/trait.h
index 1d5511b..4913f21 100644
--- a/include/bcl/trait.h
+++ b/include/bcl/trait.h
@@ -889,14 +889,17 @@ template<class Descriptor, class... WhatTy> struct UnsetFunctor {
 
 template<class Descriptor, class... Groups>
 struct UnsetFunctor<Descriptor, bcl::TraitDescriptor<Groups...>> {
-  static void unset(Descriptor &Dptr) { Dptr.template unset<Groups...>(); }
+  template<class... Traits> using Functor = UnsetFunctor<Descriptor, Traits...>;
+  static void unset(Descriptor &Dptr) {
+    ForwardTypeList<Functor, typename RemoveDuplicate<
+      typename TraitList<Groups...>::Type>::Type>::Type::unset(Dptr);
+  }
 };
 
 template<class Descriptor, class TraitMap, class TraitTaggeds, class... Groups>
 struct UnsetFunctor<Descriptor,
-    bcl::TraitSet<bcl::TraitDescriptor<Groups...>, TraitMap, TraitTaggeds>> {
-  static void unset(Descriptor &Dptr) { Dptr.template unset<Groups...>(); }
-};
+    bcl::TraitSet<bcl::TraitDescriptor<Groups...>, TraitMap, TraitTaggeds>> :
+  public UnsetFunctor<Descriptor, bcl::TraitDescriptor<Groups...>> {};
 
 template<class Descriptor, class... WhatTy> struct SetFunctor {
   static void set(Descriptor &Dptr) { Dptr.template set<WhatTy...>(); }
@@ -904,14 +907,17 @@ template<class Descriptor, class... WhatTy> struct SetFunctor {
 
 template<class Descriptor, class... Groups>
 struct SetFunctor<Descriptor, bcl::TraitDescriptor<Groups...>> {
-  static void set(Descriptor &Dptr) { Dptr.template set<Groups...>(); }
+  template<class... Traits> using Functor = SetFunctor<Descriptor, Traits...>;
+  static void set(Descriptor &Dptr) {
+    ForwardTypeList<Functor, typename RemoveDuplicate<
+      typename TraitList<Groups...>::Type>::Type>::Type::set(Dptr);
+  }
 };
 
 template<class Descriptor, class TraitMap, class TraitTaggeds, class... Groups>
 struct SetFunctor<Descriptor,
-    bcl::TraitSet<bcl::TraitDescriptor<Groups...>, TraitMap, TraitTaggeds>> {
-  static void set(Descriptor &Dptr) { Dptr.template set<Groups...>(); }
-};
+    bcl::TraitSet<bcl::TraitDescriptor<Groups...>, TraitMap, TraitTaggeds>> :
+  public SetFunctor<Descriptor, bcl::TraitDescriptor<Groups...>> {};
 
 template<class WhereTy> struct SetTraitFunctor {
   template<class Trait> void operator()() {
-- 
2.43.0


From 5f994e90de54d47f96cbbe7e16eb2ac072fa85ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:20 +0000
Subject: [PATCH 39/99] fix: TraitSet::release of an absent description does
 not erase the end iterator

---
 include/bcl/trait.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/bcl/trait.h b/include/bcl/trait.h
index 4913f21..e2615d5 100644
--- a/include/bcl/trait.h
+++ b/include/bcl/trait.h
@@ -805,8 +805,9 @@ public:
   template<class Trait> TraitDataTy<Trait> * release() {
     auto constexpr Key = TraitDescriptor::template getKey<Trait>();
     auto I = mValues.find(Key);
-    auto *Result = I == mValues.end() ? nullptr :
-      reinterpret_cast<TraitDataTy<Trait>*>(I->second);
+    if (I == mValues.end())
+      return nullptr;
+    auto *Result = reinterpret_cast<TraitDataTy<Trait>*>(I->second);
     mValues.erase(I);
     return Result;
   }
-- 
2.43.0


From 9a67e7824c616e3b99eba3e2e6a6496412f37700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:20 +0000
Subject: [PATCH 40/99] fix: move assignment of TraitSet destroys replaced
 descriptions

---
 include/bcl/trait.h | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/include/bcl/trait.h b/include/bcl/trait.h
index e2615d5..d227a5f 100644
--- a/include/bcl/trait.h
+++ b/include/bcl/trait.h
@@ -619,7 +619,15 @@ class TraitSet {
 public:
   TraitSet() = default;
   TraitSet(TraitSet &&) = default;
-  TraitSet & operator=(TraitSet &&) = default;
+  TraitSet & operator=(TraitSet &&TS) {
+    if (this == &TS)
+      return *this;
+    if (!mValues.empty())
+      mTD.for_each(ConflictsResolver(&mValues));
+    mTD = std::move(TS.mTD);
+    mValues = std::move(TS.mValues);
+    return *this;
+  }
 
   // This set manages memory allocation for a trait description, however,
   // it does not know how to copy this trait. Hence, only 'move' operations are
-- 
2.43.0


From b1d15b74e57535bd337a484a43a4790007fd2ac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:13 +0000
Subject: [PATCH 41/99] fix: CopyFromCellFunctor and MoveFromCellFunctor may
 change the target

---
 include/bcl/cell.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/bcl/cell.h b/include/bcl/cell.h
index 8b376cb..4f70f1e 100644
--- a/include/bcl/cell.h
+++ b/include/bcl/cell.h
@@ -696,7 +696,7 @@ private:
 template<class To_> struct CopyFromCellFunctor {
   typedef To_ To;
 
-  CopyFromCellFunctor(const To *T) : mTo(T) {
+  CopyFromCellFunctor(To *T) : mTo(T) {
     assert(T && "A target collection must not be null!");
   }
 
@@ -713,7 +713,7 @@ private:
 
   template<class CellTy> inline void copyFrom(CellTy *, std::false_type) {}
 
-  const To *mTo;
+  To *mTo;
 };
 
 /// \brief Moves data from one cell to another.
@@ -752,7 +752,7 @@ private:
 template<class To_> struct MoveFromCellFunctor {
   typedef To_ To;
 
-  MoveFromCellFunctor(const To *T) : mTo(T) {
+  MoveFromCellFunctor(To *T) : mTo(T) {
     assert(T && "A target collection must not be null!");
   }
 
@@ -769,7 +769,7 @@ private:
 
   template<class CellTy> inline void moveFrom(CellTy *, std::false_type) {}
 
-  const To *mTo;
+  To *mTo;
 };
 }
 
-- 
2.43.0


From edb00e55cbf008ef88c910c0be5ae82302f5a023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:13 +0000
Subject: [PATCH 42/99] fix: MoveToCellFunctor moves data instead of copying

---
 include/bcl/cell.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/bcl/cell.h b/include/bcl/cell.h
index 4f70f1e..fd1fd48 100644
--- a/include/bcl/cell.h
+++ b/include/bcl/cell.h
@@ -724,7 +724,7 @@ private:
 template<class From_> struct MoveToCellFunctor {
   typedef From_ From;
 
-  MoveToCellFunctor(const From *F) : mFrom(F) {
+  MoveToCellFunctor(From *F) : mFrom(F) {
     assert(F && "The source of data must not be null!");
   }
 
@@ -741,7 +741,7 @@ private:
 
   template<class CellTy> inline void moveTo(CellTy *, std::false_type) {}
 
-  const From *mFrom;
+  From *mFrom;
 };
 
 /// \brief Moves data from one cell to another.
-- 
2.43.0


From 7aea0071cd8414da73d350fcca2f7bcbd15e0d1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:32 +0000
Subject: [PATCH 43/99] fix: maps of types and traits keep the order of keys

---
 include/bcl/cell.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bcl/cell.h b/include/bcl/cell.h
index fd1fd48..ce8562f 100644
--- a/include/bcl/cell.h
+++ b/include/bcl/cell.h
@@ -370,7 +370,7 @@ namespace detail {
 template<template<class Ty> class KeyCtor, class Types, class... Keys>
 struct StaticMapConstructorImp {
   typedef typename StaticMapConstructorImp<KeyCtor, typename Types::Next,
-    typename KeyCtor<typename Types::Type>::CellKey, Keys...>::Type Type;
+    Keys..., typename KeyCtor<typename Types::Type>::CellKey>::Type Type;
 };
 
 template<template<class Ty> class KeyCtor, class... Keys>
-- 
2.43.0


From 43886e0dd73b639b7f1ea58fe5954fa0c1950bf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:32 +0000
Subject: [PATCH 44/99] fix: MergeCell is not ambiguous if both collections are
 empty

---
 include/bcl/cell.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/bcl/cell.h b/include/bcl/cell.h
index ce8562f..cfb0c33 100644
--- a/include/bcl/cell.h
+++ b/include/bcl/cell.h
@@ -623,6 +623,10 @@ template<class Right> struct MergeCell<StaticMap<>, Right> {
   typedef Right Result;
 };
 
+template<> struct MergeCell<StaticMap<>, StaticMap<> > {
+  typedef StaticMap<> Result;
+};
+
 /// Deletes memory allocated for a value which is stored in a cell if it has
 /// a pointer type.
 struct ClearCellFunctor {
-- 
2.43.0


From bb4898bb7bae8c304c5e04fec5e96654a234c619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:32 +0000
Subject: [PATCH 45/99] fix: TypeList<>::for_each_type accepts temporary
 functions

---
 include/bcl/cell.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bcl/cell.h b/include/bcl/cell.h
index cfb0c33..2d1ed2f 100644
--- a/include/bcl/cell.h
+++ b/include/bcl/cell.h
@@ -283,7 +283,7 @@ template<> struct TypeList<> {
   static constexpr std::size_t size_of() { return 0; }
 
   /// This is invoked when all types will be visited.
-  template<class Function> static void for_each_type(Function &) {}
+  template<class Function> static void for_each_type(Function &&) {}
 };
 
 /// \brief Determines whether the Type exists in the TypeList.
-- 
2.43.0


From 9f93b1f0362f5fcedebcf2af3528754b5825c051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:45 +0000
Subject: [PATCH 46/99] fix: tagged_tuple_idx finds an element by its tag

---
 include/bcl/tagged.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bcl/tagged.h b/include/bcl/tagged.h
index 706d51e..ab073d2 100644
--- a/include/bcl/tagged.h
+++ b/include/bcl/tagged.h
@@ -361,7 +361,7 @@ template<class Tag, class T> class tagged_tuple_idx;
 template<class Tag, class... Taggeds>
 class tagged_tuple_idx<Tag, tagged_tuple<Taggeds...>> :
   public std::integral_constant<
-    std::size_t, bcl::index_of<Tag, Taggeds...>()> {};
+    std::size_t, bcl::index_of<get_tagged<Tag, Taggeds...>, Taggeds...>()> {};
 
 /// Provide compile time access to a tag with a specified index.
 template<std::size_t Idx, class T> struct tagged_tuple_tag;
-- 
2.43.0


From c7e681cd9ec29c9655a2d4a422858a4821d3ee04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:05 +0000
Subject: [PATCH 47/99] fix: get_tagged_tuple keeps the order of tags

---
 include/bcl/tagged.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bcl/tagged.h b/include/bcl/tagged.h
index ab073d2..09e57b2 100644
--- a/include/bcl/tagged.h
+++ b/include/bcl/tagged.h
@@ -439,7 +439,7 @@ namespace detail {
 template<class Ty, class Tags, class... Taggeds>
 struct get_tagged_tuple_impl {
   using type = typename get_tagged_tuple_impl<Ty, typename Tags::Next,
-    tagged<Ty, typename Tags::Type>, Taggeds...>::type;
+    Taggeds..., tagged<Ty, typename Tags::Type>>::type;
 };
 
 template<class Ty, class... Taggeds>
-- 
2.43.0


From cfdc83a36c6738f14465151ae8ff54c4921c5b9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:12 +0000
Subject: [PATCH 48/99] fix: marray, marray_f: move assignment returns and
 releases the old data

---
 include/bcl/marray.h   | 4 ++++
 include/bcl/marray_f.h | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/include/bcl/marray.h b/include/bcl/marray.h
index 889b1de..7881428 100644
--- a/include/bcl/marray.h
+++ b/include/bcl/marray.h
@@ -105,10 +105,14 @@ public:
   }
 
   inline marray & operator=(marray &&From) BCL_ALWAYS_INLINE {
+    if (this == &From)
+      return *this;
+    delete [] mData;
     mDims = std::move(From.mDims);
     mOffset = std::move(From.mOffset);
     mData = From.mData;
     From.mData = nullptr;
+    return *this;
   }
 
   inline ~marray() BCL_ALWAYS_INLINE {
diff --git a/include/bcl/marray_f.h b/include/bcl/marray_f.h
index 0e9a17e..bf549f3 100644
--- a/include/bcl/marray_f.h
+++ b/include/bcl/marray_f.h
@@ -76,10 +76,14 @@ public:
   }
 
   inline marray_f & operator=(marray_f &&From) BCL_ALWAYS_INLINE {
+    if (this == &From)
+      return *this;
+    delete [] mData;
     mDims = std::move(From.mDims);
     mOffset = std::move(From.mOffset);
     mData = From.mData;
     From.mData = nullptr;
+    return *this;
   }
 
   inline ~marray_f() BCL_ALWAYS_INLINE {
-- 
2.43.0


From 1d0e264384a273a09b02af4990e1b8e6af271930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:12 +0000
Subject: [PATCH 49/99] fix: marray_f: one-dimensional array does not write
 outside of offsets

---
 include/bcl/marray_f.h | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/include/bcl/marray_f.h b/include/bcl/marray_f.h
index bf549f3..f8e87bd 100644
--- a/include/bcl/marray_f.h
+++ b/include/bcl/marray_f.h
@@ -43,12 +43,10 @@ class marray_f {
   /// Allocate memory according to sizes stored in mDims.
   void allocate() {
     auto FullSize = mDims[Size - 1];
-    mOffset[Size - 2] = mDims[Size - 1];
-    for (int I = Size - 2; I > 0; --I) {
-      FullSize *= mDims[I];
-      mOffset[I-1] = mOffset[I] * mDims[I];
+    for (int I = Size - 1; I > 0; --I) {
+      mOffset[I-1] = FullSize;
+      FullSize *= mDims[I-1];
     }
-    FullSize *= mDims[0];
     mData = new Ty [FullSize];
   }
 
-- 
2.43.0


From 473d81bd67d1cf519c51b08b2b4b6dce4f80adb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:00 +0000
Subject: [PATCH 50/99] fix: shrinkPair: does not read outside of a value
 narrower than a half

---
 include/bcl/utility.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/bcl/utility.h b/include/bcl/utility.h
index b2ee789..459c589 100644
--- a/include/bcl/utility.h
+++ b/include/bcl/utility.h
@@ -369,8 +369,11 @@ template<class FirstT, class SecondT, class T> bool shrinkPair(
   for (std::size_t I = HalfSizeOfT; I < sizeof(SecondT); ++I)
     if (RawSecond[I] != 0)
       return false;
-  std::memmove((char *)&Out, RawFirst, HalfSizeOfT);
-  std::memmove((char *)&Out + HalfSizeOfT, RawSecond, HalfSizeOfT);
+  std::memset((char *)&Out, 0, SizeOfT);
+  std::memmove((char *)&Out, RawFirst,
+    sizeof(FirstT) < HalfSizeOfT ? sizeof(FirstT) : HalfSizeOfT);
+  std::memmove((char *)&Out + HalfSizeOfT, RawSecond,
+    sizeof(SecondT) < HalfSizeOfT ? sizeof(SecondT) : HalfSizeOfT);
   return true;
 }
 
-- 
2.43.0


From a30825683e1729fb88f894c0ece6df73381a2dc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:00 +0000
Subject: [PATCH 51/99] fix: shrinkPair, restoreShrinkedPair: raw buffers are
 aligned

---
 include/bcl/utility.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/bcl/utility.h b/include/bcl/utility.h
index 459c589..1243d7f 100644
--- a/include/bcl/utility.h
+++ b/include/bcl/utility.h
@@ -356,7 +356,8 @@ template<typename T> void swapMemory(T &LObj, T &RObj) {
 /// return true on success.
 template<class FirstT, class SecondT, class T> bool shrinkPair(
     const FirstT &First, const SecondT &Second, T &Out) {
-  char RawFirst[sizeof(FirstT)], RawSecond[sizeof(SecondT)];
+  alignas(FirstT) char RawFirst[sizeof(FirstT)];
+  alignas(SecondT) char RawSecond[sizeof(SecondT)];
   constexpr auto SizeOfT = sizeof(T);
   constexpr auto HalfSizeOfT = SizeOfT / 2;
   std::memset(RawFirst, 0, sizeof(FirstT));
@@ -394,7 +395,7 @@ void restoreShrinkedPair(const T &Data, FirstT &First, SecondT &Second) {
     "Too small target type of a first value!");
   static_assert(sizeof(SecondT) >= HalfSizeOfT ,
     "Too small target type of a second value!");
-  char RawData[SizeOfT];
+  alignas(T) char RawData[SizeOfT];
   new (RawData) T(Data);
   std::memset(&First, 0, sizeof(FirstT));
   std::memmove(&First, RawData, HalfSizeOfT);
-- 
2.43.0


From 5093742efd780d3afea2d743ee9f908c8f1f0e0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:19 +0000
Subject: [PATCH 52/99] fix: numberOfLessZeros is finite for zero

---
 include/bcl/utility.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/bcl/utility.h b/include/bcl/utility.h
index 1243d7f..efaf3b6 100644
--- a/include/bcl/utility.h
+++ b/include/bcl/utility.h
@@ -109,7 +109,8 @@ constexpr unsigned long long operator "" _b() {
 template<class T>
 inline constexpr std::size_t numberOfLessZeros(T Value, T Base) {
   static_assert(std::is_integral<T>::value, "T must be an integral type!");
-  return Value % Base != 0 ? 0 : numberOfLessZeros(Value / Base, Base) + 1;
+  return Value % Base != 0 ? 0 :
+    Value / Base == 0 ? 1 : numberOfLessZeros(Value / Base, Base) + 1;
 }
 
 /// Returns a number of digits in a value which is represented in a number
-- 
2.43.0


From 32952fe00bb18e30b781c1daa263b59602e487d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:19 +0000
Subject: [PATCH 53/99] fix: numberOfDigits and numberOfLessZeros accept types
 narrower than int

---
 include/bcl/utility.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/bcl/utility.h b/include/bcl/utility.h
index efaf3b6..a1184a2 100644
--- a/include/bcl/utility.h
+++ b/include/bcl/utility.h
@@ -110,7 +110,7 @@ template<class T>
 inline constexpr std::size_t numberOfLessZeros(T Value, T Base) {
   static_assert(std::is_integral<T>::value, "T must be an integral type!");
   return Value % Base != 0 ? 0 :
-    Value / Base == 0 ? 1 : numberOfLessZeros(Value / Base, Base) + 1;
+    Value / Base == 0 ? 1 : numberOfLessZeros<T>(Value / Base, Base) + 1;
 }
 
 /// Returns a number of digits in a value which is represented in a number
@@ -118,7 +118,7 @@ inline constexpr std::size_t numberOfLessZeros(T Value, T Base) {
 template<class T>
 inline constexpr std::size_t numberOfDigits(T Value, T Base) {
   static_assert(std::is_integral<T>::value, "T must be an integral type!");
-  return Value / Base == 0 ? 1 : numberOfDigits(Value / Base, Base) + 1;
+  return Value / Base == 0 ? 1 : numberOfDigits<T>(Value / Base, Base) + 1;
 }
 
 /// Returns a unit mask (11...1) of a specified type that comprises a specified
-- 
2.43.0


From e321a930f08a52c56d70b37a37185a483ce0b8a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:19 +0000
Subject: [PATCH 54/99] fix: binary literal is not limited to the width of int

---
 include/bcl/utility.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bcl/utility.h b/include/bcl/utility.h
index a1184a2..9d807ca 100644
--- a/include/bcl/utility.h
+++ b/include/bcl/utility.h
@@ -83,7 +83,7 @@ template <char HighBit, char... Bits>
 struct ToBinary<HighBit, Bits...> {
   static_assert(HighBit == '0' || HighBit == '1', "Not a binary value!");
   static const unsigned long long Value =
-    (HighBit - '0') << (sizeof...(Bits)) | ToBinary<Bits...>::Value;
+    static_cast<unsigned long long>(HighBit - '0') << (sizeof...(Bits)) | ToBinary<Bits...>::Value;
 };
 
 /// Implementation of a user-defined binary-literal.
-- 
2.43.0


From 9171eaa9f4c121afd8707233beca5e6e59e0b0a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:49 +0000
Subject: [PATCH 55/99] fix: legacy ToText converts the least integer

---
 include/bcl/legacy/text.h | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/include/bcl/legacy/text.h b/include/bcl/legacy/text.h
index 97d53e0..259ff53 100644
--- a/include/bcl/legacy/text.h
+++ b/include/bcl/legacy/text.h
@@ -53,20 +53,21 @@ namespace Base
         if ( value == 0)
             return L"0";
 
+        unsigned int rest = value;
         if ( value < 0)
         {
             buffer[ index++] = '-';
-            value = -value;
+            rest = 0u - rest;
         }
 
-        for ( int tmp = value; tmp > 0; tmp /= 10, last++);
+        for ( unsigned int tmp = rest; tmp > 0; tmp /= 10, last++);
 
         if ( index + last > 19)
             throw  Base::Exception< BCL >::Error< CELL_COLL_1( ErrorList::ConvertString) >( );
 
         buffer[ index + last] = '\0';
-        for ( index = index + last - 1; value > 0; value /= 10, index--)
-            buffer[ index] = value % 10 + '0';
+        for ( index = index + last - 1; rest > 0; rest /= 10, index--)
+            buffer[ index] = rest % 10 + '0';
 
         return buffer;
     }
@@ -94,20 +95,21 @@ namespace Base
         if ( value == 0)
             return "0";
 
+        unsigned int rest = value;
         if ( value < 0)
         {
             buffer[ index++] = '-';
-            value = -value;
+            rest = 0u - rest;
         }
 
-        for ( int tmp = value; tmp > 0; tmp /= 10, last++);
+        for ( unsigned int tmp = rest; tmp > 0; tmp /= 10, last++);
 
         if ( index + last > 19)
             throw  Base::Exception< BCL >::Error< CELL_COLL_1( ErrorList::ConvertString) >( );
 
         buffer[ index + last] = '\0';
-        for ( index = index + last - 1; value > 0; value /= 10, index--)
-            buffer[ index] = value % 10 + '0';
+        for ( index = index + last - 1; rest > 0; rest /= 10, index--)
+            buffer[ index] = rest % 10 + '0';
 
         return buffer; 
     }
-- 
2.43.0


From ea2108cf114c4a51b3d52ab1635d658fd9b275dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:43 +0000
Subject: [PATCH 56/99] fix: move assignment of IntrusiveConnection returns and
 rejects the old connection

---
 include/bcl/IntrusiveConnection.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/bcl/IntrusiveConnection.h b/include/bcl/IntrusiveConnection.h
index c22fa0c..217d2a4 100644
--- a/include/bcl/IntrusiveConnection.h
+++ b/include/bcl/IntrusiveConnection.h
@@ -98,8 +98,10 @@ public:
   IntrusiveConnection & operator=(IntrusiveConnection &&C) {
     if (this == &C)
       return *this;
+    IntrusiveConnection Old(mStatus);
     mStatus = C.mStatus;
     C.mStatus = nullptr;
+    return *this;
   }
 
   /// Destructor.
-- 
2.43.0


From 911c57b0cec5bc5d9f00d18478202b7949836bff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:16 +0000
Subject: [PATCH 57/99] fix: IntrusiveConnection notifies about rejection
 before its status may be deleted

---
 include/bcl/IntrusiveConnection.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/bcl/IntrusiveConnection.h b/include/bcl/IntrusiveConnection.h
index 217d2a4..978e68a 100644
--- a/include/bcl/IntrusiveConnection.h
+++ b/include/bcl/IntrusiveConnection.h
@@ -109,10 +109,11 @@ public:
     if (!mStatus)
       return;
     {
+      // The status may be deleted as soon as the mutex is released.
       std::unique_lock<std::mutex> Lock(mStatus->mSendMutex);
       mStatus->mReject = true;
+      mStatus->mSendEvent.notify_one();
     }
-    mStatus->mSendEvent.notify_one();
   }
 
   /// \brief Receives a request, evaluates it and sends response.
@@ -138,10 +139,11 @@ public:
     }
     if (Close) {
       {
+        // The status may be deleted as soon as the mutex is released.
         std::unique_lock<std::mutex> Lock(mStatus->mSendMutex);
         mStatus->mReject = true;
+        mStatus->mSendEvent.notify_one();
       }
-      mStatus->mSendEvent.notify_one();
       mStatus = nullptr;
       return false;
     }
-- 
2.43.0


From 63ed2d0a99c80b706d61a56f88aa8f9611298b12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:16 +0000
Subject: [PATCH 58/99] fix: every request is rejected after a connection has
 been abandoned

---
 include/bcl/IntrusiveConnection.h | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/include/bcl/IntrusiveConnection.h b/include/bcl/IntrusiveConnection.h
index 978e68a..3288873 100644
--- a/include/bcl/IntrusiveConnection.h
+++ b/include/bcl/IntrusiveConnection.h
@@ -203,10 +203,6 @@ public:
     // when CS will be deleted it is necessary to access S to send REJECT
     // response.
     S->receive([Reject, Delimiter, S, CS](const std::string &Request) {
-      if (*Reject) {
-        S->send(std::string(IntrusiveConnection::Reject()) + Delimiter);
-        return;
-      }
       std::queue<std::string> Buffer;
       std::stringstream IS(Request);
       std::string Item;
@@ -218,6 +214,11 @@ public:
       if (!Item.empty())
         Buffer.push(Item);
       while (!Buffer.empty()) {
+        if (*Reject) {
+          S->send(std::string(IntrusiveConnection::Reject()) + Delimiter);
+          Buffer.pop();
+          continue;
+        }
         {
           std::unique_lock<std::mutex> Lock(CS->mReceiveMutex);
           CS->mIsReceive = true;
@@ -238,10 +239,8 @@ public:
           CS->mIsSend = false;;
         }
         S->send(Data + Delimiter);
-        if (*Reject) {
+        if (*Reject)
           delete CS;
-          break;
-        }
       }
     });
   }
-- 
2.43.0


From df9c62fcdc41df222c23826e4e01838bd8841e94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:18 +0000
Subject: [PATCH 59/99] fix: a client which closed the connection does not
 terminate the socket server

---
 lib/Socket/CSocket/CSocket.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/lib/Socket/CSocket/CSocket.cpp b/lib/Socket/CSocket/CSocket.cpp
index 3f5415e..6110ca5 100644
--- a/lib/Socket/CSocket/CSocket.cpp
+++ b/lib/Socket/CSocket/CSocket.cpp
@@ -173,7 +173,13 @@ static inline bool bindSocket(SocketT S, const AddressInfoT &AddressInfo) {
 }
 
 static inline bool sendData(SocketT S, const std::string &Message) {
-  return send(S, Message.c_str(), Message.length(), 0) >= 0;
+  // A client which closed the connection must not terminate the server.
+#ifdef MSG_NOSIGNAL
+  const int Flags = MSG_NOSIGNAL;
+#else
+  const int Flags = 0;
+#endif
+  return send(S, Message.c_str(), Message.length(), Flags) >= 0;
 }
 
 static inline std::pair<std::size_t, bool> receiveData(SocketT S,
-- 
2.43.0


From bd7c6a636f8876aa58fcb9c2fb1c4b61ade0034f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:01 +0000
Subject: [PATCH 60/99] fix: a descriptor reused by a new connection does not
 conflict with the finishing thread

---
 lib/Socket/CSocket/CSocket.cpp | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/lib/Socket/CSocket/CSocket.cpp b/lib/Socket/CSocket/CSocket.cpp
index 6110ca5..fde9e25 100644
--- a/lib/Socket/CSocket/CSocket.cpp
+++ b/lib/Socket/CSocket/CSocket.cpp
@@ -28,7 +28,6 @@
 
 #include <bcl/CSocket.h>
 #include <bcl/utility.h>
-#include <cassert>
 #include <csignal>
 #include <chrono>
 #include <future>
@@ -334,7 +333,9 @@ void bcl::net::startServer(const net::AddressT &Address, net::PortT PortNo,
     return;
   }
   on(net::SocketStatus::Listen, Connection);
-  std::unordered_map<SocketT, std::future<int>> ActiveSockets;
+  // A descriptor of a closed connection may be reused before the thread which
+  // maintains this connection is finished, so keys may be repeated.
+  std::unordered_multimap<SocketT, std::future<int>> ActiveSockets;
   if (ConnectionMaxNumber == 0 || ConnectionMaxNumber > ActiveSockets.max_size())
     ConnectionMaxNumber = ActiveSockets.max_size();
   auto engine =
@@ -381,14 +382,16 @@ void bcl::net::startServer(const net::AddressT &Address, net::PortT PortNo,
       inet_ntoa(ActualServerAddr.sin_addr), ntohs(ActualServerAddr.sin_port),
       inet_ntoa(ClientAddr.sin_addr), ntohs(ClientAddr.sin_port));
     on(net::SocketStatus::Accept, NewConnection);
-    auto EngineItr = ActiveSockets.emplace(std::piecewise_construct,
-      std::forward_as_tuple(ConnectionFD),
-      std::forward_as_tuple()).first;
-    assert(!EngineItr->second.valid() ||
-           EngineItr->second.wait_for(std::chrono::seconds(0))
-             == std::future_status::ready && "Unable to join thread!");
-    EngineItr->second = std::async(std::launch::async,
-      engine, ConnectionFD, std::move(NewConnection));
+    auto Range = ActiveSockets.equal_range(ConnectionFD);
+    for (auto I = Range.first; I != Range.second;) {
+      auto Status = I->second.wait_for(std::chrono::seconds(0));
+      if (Status == std::future_status::ready)
+        I = ActiveSockets.erase(I);
+      else
+        ++I;
+    }
+    ActiveSockets.emplace(ConnectionFD, std::async(std::launch::async,
+      engine, ConnectionFD, std::move(NewConnection)));
   }
   closeAndLog(SocketFD, Connection);
   finalize();
-- 
2.43.0


From 26d8847c0a5c01cc68ba8986512599ecc73035f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:26 +0000
Subject: [PATCH 61/99] fix: the socket server does not cut received data at a
 zero byte

---
 lib/Socket/CSocket/CSocket.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/lib/Socket/CSocket/CSocket.cpp b/lib/Socket/CSocket/CSocket.cpp
index fde9e25..da66b43 100644
--- a/lib/Socket/CSocket/CSocket.cpp
+++ b/lib/Socket/CSocket/CSocket.cpp
@@ -224,7 +224,7 @@ public:
 
   int run() {
     bcl::createServer(this);
-    auto Buffer = bcl::make_unique<char[]>(mBufferSize + 1);
+    auto Buffer = bcl::make_unique<char[]>(mBufferSize);
     for (;;) {
       auto ReceivedInfo = receiveData(mConnectionFD, Buffer.get(), mBufferSize);
       if (!ReceivedInfo.second) {
@@ -236,10 +236,9 @@ public:
         closeSocket(true);
         return 0;
       }
-      Buffer.get()[ReceivedInfo.first] = '\0';
       mOn(bcl::net::SocketStatus::Receive, mConnection);
       for (auto &Callback : mReceiveCallbacks)
-        Callback(std::string(Buffer.get()));
+        Callback(std::string(Buffer.get(), ReceivedInfo.first));
       if (mState == State::OnClose) {
         closeSocket(false);
         return 1;
-- 
2.43.0


From fd958a4d3bb0bd3bc97615819115856e11782989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:55 +0000
Subject: [PATCH 62/99] fix: the socket server sends the rest of a message
 which is sent in part

---
 lib/Socket/CSocket/CSocket.cpp | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/lib/Socket/CSocket/CSocket.cpp b/lib/Socket/CSocket/CSocket.cpp
index da66b43..53de5d5 100644
--- a/lib/Socket/CSocket/CSocket.cpp
+++ b/lib/Socket/CSocket/CSocket.cpp
@@ -108,7 +108,15 @@ static inline bool bindSocket(SocketT S, const AddressInfoT &AddressInfo) {
 }
 
 static inline bool sendData(SocketT S, const std::string &Message) {
-  return send(S, Message.c_str(), Message.length(), 0) != SOCKET_ERROR;
+  // A part of data may be sent only.
+  std::size_t Sent = 0;
+  do {
+    auto Size = send(S, Message.data() + Sent, Message.length() - Sent, 0);
+    if (Size == SOCKET_ERROR)
+      return false;
+    Sent += Size;
+  } while (Sent < Message.length());
+  return true;
 }
 
 static inline std::pair<std::size_t, bool> receiveData(SocketT S,
@@ -178,7 +186,15 @@ static inline bool sendData(SocketT S, const std::string &Message) {
 #else
   const int Flags = 0;
 #endif
-  return send(S, Message.c_str(), Message.length(), Flags) >= 0;
+  // A part of data may be sent only.
+  std::size_t Sent = 0;
+  do {
+    auto Size = send(S, Message.data() + Sent, Message.length() - Sent, Flags);
+    if (Size < 0)
+      return false;
+    Sent += Size;
+  } while (Sent < Message.length());
+  return true;
 }
 
 static inline std::pair<std::size_t, bool> receiveData(SocketT S,
-- 
2.43.0


From e0c3507c625c80d918bc09a6ee4b30cfdbd66c86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:56 +0000
Subject: [PATCH 63/99] fix: JSON_OBJECT_ROOT_PAIR accepts a type with commas

---
 include/bcl/JsonObjectMacros.h   | 2 +-
 scripts/json_object_macro_gen.pl | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/bcl/JsonObjectMacros.h b/include/bcl/JsonObjectMacros.h
index 7c2255a..5d878a3 100644
--- a/include/bcl/JsonObjectMacros.h
+++ b/include/bcl/JsonObjectMacros.h
@@ -298,7 +298,7 @@
   JSON_ACCESS_30(Object_, Name_1_, Name_2_, Name_3_, Name_4_, Name_5_, Name_6_, Name_7_, Name_8_, Name_9_, Name_10_, Name_11_, Name_12_, Name_13_, Name_14_, Name_15_, Name_16_, Name_17_, Name_18_, Name_19_, Name_20_, Name_21_, Name_22_, Name_23_, Name_24_, Name_25_, Name_26_, Name_27_, Name_28_, Name_29_, Name_30_)
 
 #define JSON_OBJECT_ROOT_PAIR(Object_, Name_, Type_) \
-  JSON_VALUE(Name_, Type_) \
+  JSON_VALUE(Name_, BCL_JOIN(Type_)) \
   JSON_OBJECT_ROOT(Object_, Name_) \
   JSON_ACCESS(Object_, Name_)
 #define JSON_OBJECT_ROOT_PAIR_2(Object_, Name_1_, Type_1_, Name_2_, Type_2_) \
diff --git a/scripts/json_object_macro_gen.pl b/scripts/json_object_macro_gen.pl
index bdb06be..b93d50f 100644
--- a/scripts/json_object_macro_gen.pl
+++ b/scripts/json_object_macro_gen.pl
@@ -70,7 +70,7 @@ EOS
 print <<EOS;
 
 #define JSON_OBJECT_ROOT_PAIR(Object_, Name_, Type_) \\
-  JSON_VALUE(Name_, Type_) \\
+  JSON_VALUE(Name_, BCL_JOIN(Type_)) \\
   JSON_OBJECT_ROOT(Object_, Name_) \\
   JSON_ACCESS(Object_, Name_)
 EOS
-- 
2.43.0


From dedd0ae583239e32b98da89fc2fa0932143c7735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:34 +0000
Subject: [PATCH 64/99] fix: the Node.js connector does not cut or keep
 received data

---
 lib/Socket/NodeJSSocket/NodeJSSocket.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/lib/Socket/NodeJSSocket/NodeJSSocket.cpp b/lib/Socket/NodeJSSocket/NodeJSSocket.cpp
index 8023714..5091da6 100644
--- a/lib/Socket/NodeJSSocket/NodeJSSocket.cpp
+++ b/lib/Socket/NodeJSSocket/NodeJSSocket.cpp
@@ -117,12 +117,11 @@ private:
       return;
     }
     auto Data = Local<Uint8Array>::Cast(Args[0]);
-    auto DataUtf8 = new char [Data->ByteLength() + 1];
-    Data->CopyContents(DataUtf8, Data->ByteLength());
-    DataUtf8[Data->ByteLength()] = '\0';
+    std::string Message(Data->ByteLength(), '\0');
+    Data->CopyContents(&Message[0], Message.size());
     void *UserFunc = Local<External>::Cast(Args.Data())->Value();
     auto F = static_cast<ReceiveCallback *>(UserFunc);
-    (*F)(std::string(DataUtf8));
+    (*F)(Message);
   }
 
   /// This is a wrapper of a listener specified by a user, this is binded
-- 
2.43.0


From cff978a54ad69002f3701f30dc2674890e55c1eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:34 +0000
Subject: [PATCH 65/99] fix: the Node.js connector does not cut a sent message
 at a zero byte

---
 lib/Socket/NodeJSSocket/NodeJSSocket.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/Socket/NodeJSSocket/NodeJSSocket.cpp b/lib/Socket/NodeJSSocket/NodeJSSocket.cpp
index 5091da6..f896f86 100644
--- a/lib/Socket/NodeJSSocket/NodeJSSocket.cpp
+++ b/lib/Socket/NodeJSSocket/NodeJSSocket.cpp
@@ -70,7 +70,8 @@ public:
   void send(const std::string &Message) const override {
     const unsigned Argc = 1;
     Local<Value> Argv[Argc] = {
-        String::NewFromUtf8(mIsolate, Message.c_str()).ToLocalChecked()};
+        String::NewFromUtf8(mIsolate, Message.data(), NewStringType::kNormal,
+                            Message.size()).ToLocalChecked()};
     Local<Context> Ctx = mIsolate->GetCurrentContext();
     Local<Function>::New(mIsolate, mSend)->Call(Ctx, Null(mIsolate), Argc, Argv);
   }
-- 
2.43.0


From eb9c27490d0d913f0ba342f7da0e55566ab810d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:34 +0000
Subject: [PATCH 66/99] fix: connect() with wrong parameters throws instead of
 ending the process

---
 lib/Socket/NodeJSSocket/NodeJSSocket.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib/Socket/NodeJSSocket/NodeJSSocket.cpp b/lib/Socket/NodeJSSocket/NodeJSSocket.cpp
index f896f86..065f216 100644
--- a/lib/Socket/NodeJSSocket/NodeJSSocket.cpp
+++ b/lib/Socket/NodeJSSocket/NodeJSSocket.cpp
@@ -177,8 +177,9 @@ public:
     Local<Value> Argv[Argc] = { Args[0], Args[1] };
     Local<Function> Ctor = Local<Function>::New(CurrIsolate, mCtor);
     Local<Context> Ctx = CurrIsolate->GetCurrentContext();
-    Local<Object> Instance =
-      Ctor->NewInstance(Ctx, Argc, Argv).ToLocalChecked();
+    Local<Object> Instance;
+    if (!Ctor->NewInstance(Ctx, Argc, Argv).ToLocal(&Instance))
+      return;
     Args.GetReturnValue().Set(Instance);
   }
 
-- 
2.43.0


From 4292c235b78bcfc546bd97f9585b7521cb44ccb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:34 +0000
Subject: [PATCH 67/99] fix: the Node.js connector is not destroyed between
 listeners of a close event

---
 lib/Socket/NodeJSSocket/NodeJSSocket.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/lib/Socket/NodeJSSocket/NodeJSSocket.cpp b/lib/Socket/NodeJSSocket/NodeJSSocket.cpp
index 065f216..cf0c084 100644
--- a/lib/Socket/NodeJSSocket/NodeJSSocket.cpp
+++ b/lib/Socket/NodeJSSocket/NodeJSSocket.cpp
@@ -193,7 +193,13 @@ private:
   /// Start execution of a server.
   static void startServer(const FunctionCallbackInfo<Value>& Args) {
     auto* C = ObjectWrap::Unwrap<Connection>(Args.Holder());
-    C->mSocket->closed([C](bool){ C->Unref(); });
+    // Other listeners of a 'close' event may be still waiting for a call, so
+    // the socket must not be collected until all of them have been called.
+    auto *CurrIsolate = Args.GetIsolate();
+    C->mSocket->closed([C, CurrIsolate](bool) {
+      CurrIsolate->EnqueueMicrotask(
+        [](void *Data) { static_cast<Connection *>(Data)->Unref(); }, C);
+    });
     createServer(C->mSocket);
   }
 
-- 
2.43.0


From f849c09d934c31560ab4462aefd3b6dabfc1c746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:34 +0000
Subject: [PATCH 68/99] fix: the Node.js connector releases functions of a
 destroyed socket

---
 lib/Socket/NodeJSSocket/NodeJSSocket.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/Socket/NodeJSSocket/NodeJSSocket.cpp b/lib/Socket/NodeJSSocket/NodeJSSocket.cpp
index cf0c084..6e05b7c 100644
--- a/lib/Socket/NodeJSSocket/NodeJSSocket.cpp
+++ b/lib/Socket/NodeJSSocket/NodeJSSocket.cpp
@@ -66,6 +66,12 @@ public:
   SocketImp(Isolate *I, Local<Function> Send, Local<Function> On) :
     mIsolate(I), mSend(I, Send), mOn(I, On) {}
 
+  /// Release JavaScript functions.
+  ~SocketImp() {
+    mSend.Reset();
+    mOn.Reset();
+  }
+
   /// Send a message.
   void send(const std::string &Message) const override {
     const unsigned Argc = 1;
-- 
2.43.0


From f831bb6a2e8cdffe79e321f54879e4eea6c05b08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:44 +0000
Subject: [PATCH 69/99] fix: legacy exceptions include the collections of cells
 they use

---
 include/bcl/legacy/exception.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bcl/legacy/exception.h b/include/bcl/legacy/exception.h
index 8e1e3f4..e1d9b83 100644
--- a/include/bcl/legacy/exception.h
+++ b/include/bcl/legacy/exception.h
@@ -22,7 +22,7 @@
 
 #include "declaration.h"
 #include "../utility.h"
-#include "../cell.h"
+#include "cell_legacy.h"
 
 //! Описывает ошибку.
 /*! \param name_ Название ошибки.
-- 
2.43.0


From 3d2c07807c69b7dca8aeb4e8c90983588fabee4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:44 +0000
Subject: [PATCH 70/99] fix: legacy values use text types of the library

---
 include/bcl/legacy/value.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/bcl/legacy/value.h b/include/bcl/legacy/value.h
index 67a0ca4..0e980f5 100644
--- a/include/bcl/legacy/value.h
+++ b/include/bcl/legacy/value.h
@@ -29,8 +29,8 @@
 
 namespace Utility
 {
-    using DataBase::Text;
-    using DataBase::Char;
+    using Base::Text;
+    using Base::Char;
 
     //! Класс-обертка для значений заданного типа.
     /*! \tparam Type_ Тип значения.
-- 
2.43.0


From 24ebbd9c561c787a1f42cb717a589a062cbf46ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:44 +0000
Subject: [PATCH 71/99] fix: an undefined legacy pointer value is equal to the
 undefined value

---
 include/bcl/legacy/value.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/bcl/legacy/value.h b/include/bcl/legacy/value.h
index 0e980f5..488a21d 100644
--- a/include/bcl/legacy/value.h
+++ b/include/bcl/legacy/value.h
@@ -271,10 +271,10 @@ namespace Utility
         operator const Type & ( ) const { return m_value; }        
 
         //! Оператор сравнения с неопределенным значением.
-        bool operator==( Null) { return m_value; }      
+        bool operator==( Null) { return m_value == NULL; }      
 
         //! Оператор сравнения с неопределенным значением.
-        bool operator==( Null) const { return m_value; }      
+        bool operator==( Null) const { return m_value == NULL; }      
 
         //! Оператор сравнения с неопределенным значением.
         bool operator!=( Null) { return m_value; }      
-- 
2.43.0


From 512a60303a3379185ef5e28f05d3f688d9ced0d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:44 +0000
Subject: [PATCH 72/99] fix: legacy values that are equal are less or equal

---
 include/bcl/legacy/value.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bcl/legacy/value.h b/include/bcl/legacy/value.h
index 488a21d..d1974fb 100644
--- a/include/bcl/legacy/value.h
+++ b/include/bcl/legacy/value.h
@@ -439,7 +439,7 @@ namespace Utility
     {
         if ( left == undef || right == undef)
                 return false;
-        return static_cast< const Left_ & >( left) < static_cast< const Right_ & >( right);
+        return static_cast< const Left_ & >( left) <= static_cast< const Right_ & >( right);
     }
     //! Оператор сравнения двух классов-оберток.
     /*! Выполняет сравнение на больше двух классов-оберток, 
-- 
2.43.0


From 59ac28e04090a6427fe8b43b24c6fa1cd8665e1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:44 +0000
Subject: [PATCH 73/99] fix: comparison of a legacy value with a plain one
 returns the result

---
 include/bcl/legacy/value.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/bcl/legacy/value.h b/include/bcl/legacy/value.h
index d1974fb..be859b8 100644
--- a/include/bcl/legacy/value.h
+++ b/include/bcl/legacy/value.h
@@ -572,7 +572,7 @@ namespace Utility
     {
         if ( left == undef)
                 return false;
-        static_cast< const Left_ & >( left) < right;
+        return static_cast< const Left_ & >( left) < right;
     }
 
     //! Оператор сравнения класса-обертоки со значением.
@@ -586,7 +586,7 @@ namespace Utility
     {
         if ( left == undef)
                 return false;
-        static_cast< const Left_ & >( left) <= right;
+        return static_cast< const Left_ & >( left) <= right;
     }
 
     //! Оператор сравнения класса-обертоки со значением.
@@ -600,7 +600,7 @@ namespace Utility
     {
         if ( left == undef)
                 return false;
-        static_cast< const Left_ & >( left) > right;
+        return static_cast< const Left_ & >( left) > right;
     }
 
     //! Оператор сравнения класса-обертоки со значением.
@@ -614,7 +614,7 @@ namespace Utility
     {
         if ( left == undef)
                 return false;
-        static_cast< const Left_ & >( left) >= right;
+        return static_cast< const Left_ & >( left) >= right;
     }
 
     //! Оператор сравнения с неопределенным значением.    
-- 
2.43.0


From ec92447dcd22523da3b977582e42fb9a5254bc3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:44 +0000
Subject: [PATCH 74/99] fix: an undefined legacy value can be copied

---
 include/bcl/legacy/value.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/bcl/legacy/value.h b/include/bcl/legacy/value.h
index be859b8..18ec84a 100644
--- a/include/bcl/legacy/value.h
+++ b/include/bcl/legacy/value.h
@@ -137,10 +137,10 @@ namespace Utility
 
     public:
         //! Конструктор умолчания, создает неопределенное значение.
-        Value( ) : m_defined( false){ }
+        Value( ) : m_value( ), m_defined( false){ }
 
         //! Конструктор копирования, неопределенного значения.
-        Value( Null) : m_defined( false) { }        
+        Value( Null) : m_value( ), m_defined( false) { }        
 
         //! Конструктор копирования на основе хранимого значения.
         Value( const Type &value) : 
-- 
2.43.0


From d266574dceac14fffa601dad05f3e6f91f7b8924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:44 +0000
Subject: [PATCH 75/99] fix: nodes of a legacy tree can be visited

---
 include/bcl/legacy/tree.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/bcl/legacy/tree.h b/include/bcl/legacy/tree.h
index d0c8d34..f6cfb22 100644
--- a/include/bcl/legacy/tree.h
+++ b/include/bcl/legacy/tree.h
@@ -173,6 +173,9 @@ namespace Base
         ValueType m_value; //!< Значение хранимое в ячейке.
     };
 
+    //! Завершает обход: поддерево не содержит вершин.
+    template< class Functor_ > inline void Visit( Utility::Null, Functor_ &) { }
+
     //! Выполняет функционал над всеми вершинами дерева.
     /*! \tparam Root_ Корень дерева.
         \tparam Functor_ Функционал который должен быть выполнен.
-- 
2.43.0


From 832806f1411fff1229e491f166a6e54d21871652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:45 +0000
Subject: [PATCH 76/99] fix: missing subtrees of different legacy nodes are not
 mixed up

---
 include/bcl/legacy/tree.h | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/include/bcl/legacy/tree.h b/include/bcl/legacy/tree.h
index f6cfb22..dfe331a 100644
--- a/include/bcl/legacy/tree.h
+++ b/include/bcl/legacy/tree.h
@@ -59,28 +59,30 @@ namespace Base
 
     //! Дуга от вершины к левому поддереву.
     /*! \tparam Left_ Корень левого поддерева.
+        \tparam Root_ Корень дерева, благодаря которому дуги разных вершин различаются.
     */
-    template< class Left_ > class LeftBranchImp : public Left_
+    template< class Left_, class Root_ > class LeftBranchImp : public Left_
     { 
     protected:
         //! Создает дугу.
-        LeftBranchImp< Left_ >( ) { }
+        LeftBranchImp( ) { }
 
         //! Создает дугу.
-        LeftBranchImp< Left_ >( const Left_ &left) : Left_( left) { }
+        LeftBranchImp( const Left_ &left) : Left_( left) { }
     };
 
     //! Дуга от вершины к правому поддереву.
     /*! \tparam Right_ Корень правого поддерева.
+        \tparam Root_ Корень дерева, благодаря которому дуги разных вершин различаются.
     */
-    template< class Right_ > class RightBranchImp : public Right_ 
+    template< class Right_, class Root_ > class RightBranchImp : public Right_ 
     { 
     protected:
         //! Создает дугу.
-        RightBranchImp< Right_ >( ) { }
+        RightBranchImp( ) { }
 
         //! Создает дугу.
-        RightBranchImp< Right_ >( const Right_ &right) : Right_( right) { }
+        RightBranchImp( const Right_ &right) : Right_( right) { }
     };
 
     //! Статическое дерево.
@@ -90,8 +92,8 @@ namespace Base
     */
     template< class Id_, class Left_ = Utility::Null, class Right_ = Utility::Null >
     class Node : 
-        public LeftBranchImp< Left_ >, 
-        public RightBranchImp< Right_ >, 
+        public LeftBranchImp< Left_, Node< Id_, Left_, Right_ > >, 
+        public RightBranchImp< Right_, Node< Id_, Left_, Right_ > >, 
         public virtual Utility::If< Utility::IsReference< typename Id_::ValueType >,
                                     Utility::Unassignable,
                                     Utility::Copyable >::Result
@@ -101,10 +103,10 @@ namespace Base
         typedef typename Id::ValueType ValueType; //!< Тип значений, хранимых в корне.
 
         typedef Left_ Left; //!< Левое поддерево.
-        typedef LeftBranchImp< Left > LeftBranch; //!< Дуга к левому поддереву.
+        typedef LeftBranchImp< Left, Node< Id_, Left_, Right_ > > LeftBranch; //!< Дуга к левому поддереву.
 
         typedef Right_ Right; //!< Правое поддерево.
-        typedef RightBranchImp< Right > RightBranch; //!< Дуга к правому поддереву.
+        typedef RightBranchImp< Right, Node< Id_, Left_, Right_ > > RightBranch; //!< Дуга к правому поддереву.
 
         typedef Node< Id, Left, Right > Root; //!< Корень дерева.
 
-- 
2.43.0


From f995b6145573cdd3b4299de3a2ad644e3a85040c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:45 +0000
Subject: [PATCH 77/99] fix: legacy cells can be copied to another collection

---
 include/bcl/legacy/cell_legacy.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/bcl/legacy/cell_legacy.h b/include/bcl/legacy/cell_legacy.h
index 7876f7d..37cb5cd 100644
--- a/include/bcl/legacy/cell_legacy.h
+++ b/include/bcl/legacy/cell_legacy.h
@@ -452,7 +452,7 @@ namespace Base
         typedef To_ To; //!< Назначение копирования.
 
         //! Создает функционал.
-        CopyFromCellFunctor( const To *to) : m_to( to) { ASSERT( m_to); }
+        CopyFromCellFunctor( To *to) : m_to( to) { ASSERT( m_to); }
 
         //! Выполняет копирование данных из заданной ячейки.
         template< class Cell_ > inline void operator( )( Cell_ *cell)
@@ -477,7 +477,7 @@ namespace Base
         template< class Cell_ > inline void CopyFrom( Cell_ *, Utility::False) { }
 
     private:
-        const To *m_to; //!< Назначение копирования.
+        To *m_to; //!< Назначение копирования.
     };
 }
 
-- 
2.43.0


From 08e1148b612d0de28542d36e28d87c993068c636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:22 +0000
Subject: [PATCH 78/99] fix: keep the position in RedirectIO if a new one
 cannot be determined

---
 include/bcl/RedirectIO.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/bcl/RedirectIO.h b/include/bcl/RedirectIO.h
index ffb9773..6aee589 100644
--- a/include/bcl/RedirectIO.h
+++ b/include/bcl/RedirectIO.h
@@ -240,11 +240,12 @@ public:
   /// Set position to perform diff() comparison to a current position.
   bool setDiffPos() {
     assert(mFile && "File must not be null!");
-    mDiffPos = std::ftell(mFile);
-    if (mDiffPos == -1) {
+    auto Pos = std::ftell(mFile);
+    if (Pos == -1) {
       storeErrNo("ftell");
       return false;
     }
+    mDiffPos = Pos;
     return true;
   }
 
-- 
2.43.0


From 7f88bef9e1412b92f23275603cc7985cae9099b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:23 +0000
Subject: [PATCH 79/99] fix: do not close a file of RedirectIO again if closing
 of it has failed

---
 include/bcl/RedirectIO.h | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/include/bcl/RedirectIO.h b/include/bcl/RedirectIO.h
index 6aee589..13d152d 100644
--- a/include/bcl/RedirectIO.h
+++ b/include/bcl/RedirectIO.h
@@ -102,8 +102,7 @@ public:
       storeErrNo("dup2");
       if (fclose(mFile) != 0)
         storeErrNo("fclose");
-      else
-        mFile = nullptr;
+      mFile = nullptr;
       return;
     }
     if (M == Mode::Append) {
@@ -114,8 +113,7 @@ public:
         storeErrNo("fgetc");
         if (fclose(mFile) != 0)
           storeErrNo("fclose");
-        else
-          mFile = nullptr;
+        mFile = nullptr;
         return;
       }
     }
@@ -124,8 +122,7 @@ public:
       storeErrNo("ftell");
       if (fclose(mFile) != 0)
         storeErrNo("fclose");
-      else
-        mFile = nullptr;
+      mFile = nullptr;
       return;
     }
   }
-- 
2.43.0


From 5b07f9d8b004831266ce77430f503e2c71e5f3f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:00 +0000
Subject: [PATCH 80/99] fix: setDiffPos() forgets a position remembered before
 a failed read

If diff() failed to read the file, it moved the stream back, and the stream
remembered this position. So, setDiffPos() did not notice data which had been
written since then.
---
 include/bcl/RedirectIO.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/bcl/RedirectIO.h b/include/bcl/RedirectIO.h
index 13d152d..2e15459 100644
--- a/include/bcl/RedirectIO.h
+++ b/include/bcl/RedirectIO.h
@@ -237,6 +237,12 @@ public:
   /// Set position to perform diff() comparison to a current position.
   bool setDiffPos() {
     assert(mFile && "File must not be null!");
+    // Forget a position which has been remembered in the stream, the file may
+    // have been extended since then.
+    if (std::fflush(mFile) != 0) {
+      storeErrNo("fflush");
+      return false;
+    }
     auto Pos = std::ftell(mFile);
     if (Pos == -1) {
       storeErrNo("ftell");
-- 
2.43.0


From db93e4a34ae8d889ac3f367cddb06851916bd86e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:36 +0000
Subject: [PATCH 81/99] fix: TransparentQueue keeps its elements if there is
 not enough memory

The queue was marked as a queue of several elements before a container for
them was allocated, and a copy assignment destroyed the container before a new
one was made. If an allocation failed, the queue referred to garbage.
---
 include/bcl/transparent_queue.h | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/include/bcl/transparent_queue.h b/include/bcl/transparent_queue.h
index 0d8ce57..bc471bc 100644
--- a/include/bcl/transparent_queue.h
+++ b/include/bcl/transparent_queue.h
@@ -28,6 +28,7 @@
 
 #include <assert.h>
 #include <cstring>
+#include <memory>
 #include <queue>
 
 namespace bcl {
@@ -69,6 +70,8 @@ public:
   TransparentQueue & operator=(const TransparentQueue &TQ) {
     if (this == &TQ)
       return *this;
+    // Copy at first, the queue is not changed if there is not enough memory.
+    auto *Queue = TQ.mIsSingle ? nullptr : new Container(*TQ.mQueue);
     if (!mIsSingle)
       delete mQueue;
     mIsSingle = TQ.mIsSingle;
@@ -76,7 +79,7 @@ public:
     if (mIsSingle)
       mValue = TQ.mValue;
     else
-      mQueue = new Container(*TQ.mQueue);
+      mQueue = Queue;
     return *this;
   }
 
@@ -120,10 +123,12 @@ public:
         mValue = V;
         return;
       }
+      std::unique_ptr<Container> Queue(new Container());
+      Queue->push(mValue);
+      Queue->push(V);
+      mQueue = Queue.release();
       mIsSingle = false;
-      auto Current = mValue;
-      mQueue = new Container();
-      mQueue->push(Current);
+      return;
     }
     mQueue->push(V);
   }
@@ -168,11 +173,13 @@ public:
   /// Pushes new element to the end of the queue.
   template<class... ArgTy> void emplace(ArgTy&&... Args) {
     if (mIsSingle) {
-      mIsSingle = false;
-      Ty *Current = mValue;
-      mQueue = new Container();
+      std::unique_ptr<Container> Queue(new Container());
       if (!mIsEmpty)
-        mQueue->push(Current);
+        Queue->push(mValue);
+      Queue->emplace(Args...);
+      mQueue = Queue.release();
+      mIsSingle = false;
+      return;
     }
     mQueue->emplace(Args...);
   }
-- 
2.43.0


From fcbc221c885cf9dc47762124d0ef4e96be89e0b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:17 +0000
Subject: [PATCH 82/99] fix: JSON conversion to a character fails if there is
 not enough memory

---
 include/bcl/Json.h | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/include/bcl/Json.h b/include/bcl/Json.h
index cb9faaa..18072e8 100644
--- a/include/bcl/Json.h
+++ b/include/bcl/Json.h
@@ -1121,12 +1121,17 @@ template<> struct Traits<char> {
   inline static bool parse(char &Dest, Lexer &Lex) noexcept {
     if (!Lex.isValue())
       return false;
-    auto Value = Lex.discardQuote();
-    auto Tmp = Traits<std::string>::unescape(
-      Lex.json().substr(Value.first, Value.second - Value.first + 1));
-    if (Tmp.size() != 1)
+    try {
+      auto Value = Lex.discardQuote();
+      auto Tmp = Traits<std::string>::unescape(
+        Lex.json().substr(Value.first, Value.second - Value.first + 1));
+      if (Tmp.size() != 1)
+        return false;
+      Dest = Tmp.front();
+    }
+    catch (...) {
       return false;
-    Dest = Tmp.front();
+    }
     return true;
   }
   inline static void unparse(String &JSON, char Obj) {
-- 
2.43.0


From fc08b52f48b52c1fda7229088645d9bed47b6bf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:35 +0000
Subject: [PATCH 83/99] fix: BinomialSystem does not keep an equation it has no
 memory for

---
 include/bcl/Equation.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/bcl/Equation.h b/include/bcl/Equation.h
index b3db6d6..1599ff9 100644
--- a/include/bcl/Equation.h
+++ b/include/bcl/Equation.h
@@ -316,8 +316,14 @@ public:
   /// Add new equation to the system.
   void push_back(typename EquationT::Monom LHS, typename EquationT::Monom RHS,
                  ValueT Constant) {
-    mRows.emplace_back(LHS, RHS, Constant);
-    mIdx.push_back(mRows.size() - 1);
+    mIdx.push_back(mRows.size());
+    try {
+      mRows.emplace_back(LHS, RHS, Constant);
+    }
+    catch (...) {
+      mIdx.pop_back();
+      throw;
+    }
   }
 
   /// Return the last equation.
-- 
2.43.0


From 52d393f976ea80d48b69311834d6794e9e34d537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:16 +0000
Subject: [PATCH 84/99] fix: redirected data are not overwritten if there is
 not enough memory for diff()

---
 include/bcl/RedirectIO.h | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/include/bcl/RedirectIO.h b/include/bcl/RedirectIO.h
index 2e15459..94ddd7b 100644
--- a/include/bcl/RedirectIO.h
+++ b/include/bcl/RedirectIO.h
@@ -219,8 +219,15 @@ public:
     }
     char Buf[100];
     std::string Str;
-    while (auto Size = std::fread(Buf, 1, sizeof(Buf), mFile))
-      Str.append(Buf, Size);
+    try {
+      while (auto Size = std::fread(Buf, 1, sizeof(Buf), mFile))
+        Str.append(Buf, Size);
+    }
+    catch (...) {
+      // Redirected data must not be written to the current position.
+      std::fseek(mFile, Pos, SEEK_SET);
+      throw;
+    }
     if (!std::feof(mFile)) {
       storeErrNo("fread");
       if (std::fseek(mFile, Pos, SEEK_SET) != 0)
-- 
2.43.0


From bd5abdb8c0aa3f9f746f2672ada1152cb947b927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:14 +0000
Subject: [PATCH 85/99] fix: the socket server goes on if it is not possible to
 start a thread

---
 lib/Socket/CSocket/CSocket.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/lib/Socket/CSocket/CSocket.cpp b/lib/Socket/CSocket/CSocket.cpp
index 53de5d5..470a7a5 100644
--- a/lib/Socket/CSocket/CSocket.cpp
+++ b/lib/Socket/CSocket/CSocket.cpp
@@ -405,8 +405,17 @@ void bcl::net::startServer(const net::AddressT &Address, net::PortT PortNo,
       else
         ++I;
     }
-    ActiveSockets.emplace(ConnectionFD, std::async(std::launch::async,
-      engine, ConnectionFD, std::move(NewConnection)));
+    std::future<int> Result;
+    try {
+      Result = std::async(std::launch::async,
+        engine, ConnectionFD, NewConnection);
+    }
+    catch (const std::exception &) {
+      // There are no resources to maintain one more connection.
+      closeAndLog(ConnectionFD, NewConnection);
+      continue;
+    }
+    ActiveSockets.emplace(ConnectionFD, std::move(Result));
   }
   closeAndLog(SocketFD, Connection);
   finalize();
-- 
2.43.0


From 3c1a52df00fa61edcd8b68288a63d58ab4ec7b7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:14 +0000
Subject: [PATCH 86/99] fix: the socket server closes a connection if a
 listener throws an exception

---
 lib/Socket/CSocket/CSocket.cpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/lib/Socket/CSocket/CSocket.cpp b/lib/Socket/CSocket/CSocket.cpp
index 470a7a5..4d5e181 100644
--- a/lib/Socket/CSocket/CSocket.cpp
+++ b/lib/Socket/CSocket/CSocket.cpp
@@ -239,6 +239,19 @@ public:
   }
 
   int run() {
+    try {
+      return maintain();
+    }
+    catch (...) {
+      // Do not leave the client waiting for the other end of the connection.
+      if (mState != State::Closed)
+        closeSocket(false);
+      throw;
+    }
+  }
+  std::string Data;
+ private:
+  int maintain() {
     bcl::createServer(this);
     auto Buffer = bcl::make_unique<char[]>(mBufferSize);
     for (;;) {
@@ -261,8 +274,7 @@ public:
       }
     }
   }
-  std::string Data;
- private:
+
   void closeSocket(bool IsOk) const {
     mState = State::Closed;
     if (!::closeSocket(mConnectionFD)) {
-- 
2.43.0


From 5fdc6f4db5fb8717c42ea8637f7510e3bd310ddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:36 +0000
Subject: [PATCH 87/99] fix: IntrusiveConnection releases its state if it is
 not possible to start a thread

---
 include/bcl/IntrusiveConnection.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/bcl/IntrusiveConnection.h b/include/bcl/IntrusiveConnection.h
index 3288873..2e2abc8 100644
--- a/include/bcl/IntrusiveConnection.h
+++ b/include/bcl/IntrusiveConnection.h
@@ -58,6 +58,7 @@
 
 #include "Socket.h"
 #include <condition_variable>
+#include <memory>
 #include <mutex>
 #include <queue>
 #include <sstream>
@@ -179,10 +180,11 @@ public:
   template<class Function, class... ArgsTy>
   static void connect(const bcl::Socket<std::string> *S,
       char Delimiter, Function &&F, ArgsTy&&... Args) {
-    auto CS = new Status;
+    std::unique_ptr<Status> Owner(new Status);
     std::thread Engine(std::forward<Function>(F),
-      IntrusiveConnection(CS), std::forward<ArgsTy>(Args)...);
+      IntrusiveConnection(Owner.get()), std::forward<ArgsTy>(Args)...);
     Engine.detach();
+    auto *CS = Owner.release();
     auto *Reject = new bool(false);
     S->closed([Reject, CS](bool) {
       if (!*Reject) {
-- 
2.43.0


From b676fcec814c67721387922c989a66601e3c0465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:14 +0000
Subject: [PATCH 88/99] fix: a JSON lexer has no token before the first one is
 read

---
 include/bcl/Json.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bcl/Json.h b/include/bcl/Json.h
index 18072e8..4ed7176 100644
--- a/include/bcl/Json.h
+++ b/include/bcl/Json.h
@@ -680,7 +680,7 @@ private:
   Position mStart = 0;
   Position mEnd = 0;
   Position mNext = 0;
-  Token mToken;
+  Token mToken = Token::INVALID;
   bool mIsIntegral = false;
   Keyword mKeyword = Keyword::NO_VALUE;
   std::stack<State> mStates;
-- 
2.43.0


From 0b9f692fc7e0ab4a6b834c9038b0bbf16ce2cfe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:14 +0000
Subject: [PATCH 89/99] fix: a JSON lexer restores the keyword it stored

---
 include/bcl/Json.h | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/include/bcl/Json.h b/include/bcl/Json.h
index 4ed7176..ff6e074 100644
--- a/include/bcl/Json.h
+++ b/include/bcl/Json.h
@@ -438,14 +438,16 @@ class Lexer: private bcl::Uncopyable {
 
   /// State of a lexer.
   struct State {
-    State(Position S, Position E, Position N, Token T, bool IsInt) :
-      mStart(S), mEnd(E), mNext(N), mToken(T), mIsIntegral(IsInt) {}
+    State(Position S, Position E, Position N, Token T, bool IsInt, Keyword K) :
+      mStart(S), mEnd(E), mNext(N), mToken(T), mIsIntegral(IsInt),
+      mKeyword(K) {}
 
     Position mStart = 0;
     Position mEnd = 0;
     Position mNext = 0;
     Token mToken;
     bool mIsIntegral = false;
+    Keyword mKeyword = Keyword::NO_VALUE;
   };
 
 public:
@@ -596,7 +598,8 @@ public:
   /// Saves the current position in an internal stack, it can be restored with
   /// restorePosition() method.
   void storePosition() {
-    mStates.emplace(State(mStart, mEnd, mNext, mToken, mIsIntegral));
+    mStates.emplace(
+      State(mStart, mEnd, mNext, mToken, mIsIntegral, mKeyword));
   }
 
   /// Restores the last stored position. If there is no stored positions do
@@ -609,6 +612,7 @@ public:
     mNext = mStates.top().mNext;
     mToken = mStates.top().mToken;
     mIsIntegral = mStates.top().mIsIntegral;
+    mKeyword = mStates.top().mKeyword;
   }
 
   /// \brief Returns start position of a current token in the JSON string.
-- 
2.43.0


From f6f2db5ce9a6d62f13264b0003b482f1cb8752a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:14 +0000
Subject: [PATCH 90/99] fix: positions of a JSON lexer are restored in the
 reverse order

---
 include/bcl/Json.h | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/include/bcl/Json.h b/include/bcl/Json.h
index ff6e074..f943ea6 100644
--- a/include/bcl/Json.h
+++ b/include/bcl/Json.h
@@ -602,8 +602,8 @@ public:
       State(mStart, mEnd, mNext, mToken, mIsIntegral, mKeyword));
   }
 
-  /// Restores the last stored position. If there is no stored positions do
-  /// nothing.
+  /// Restores the last stored position and removes it from an internal stack.
+  /// If there is no stored positions do nothing.
   void restorePosition() {
     if (mStates.empty())
       return;
@@ -613,6 +613,7 @@ public:
     mToken = mStates.top().mToken;
     mIsIntegral = mStates.top().mIsIntegral;
     mKeyword = mStates.top().mKeyword;
+    mStates.pop();
   }
 
   /// \brief Returns start position of a current token in the JSON string.
@@ -1799,7 +1800,7 @@ template<class... Args> struct Traits<bcl::StaticMap<Args...>> {
 
 template<class... Objects> std::tuple<Position, Position, bool>
 Parser<Objects...>::numberOfKeys(Lexer &Lex) {
-  Lex.storePosition();
+  const auto Start = Lex.start();
   Position MaxIdx = 0;
   Position Count = 0;
   std::set<unsigned long long> Indexes;
@@ -1813,7 +1814,7 @@ Parser<Objects...>::numberOfKeys(Lexer &Lex) {
   if (!Lex.goToNext())
     return std::make_tuple(0, 0, false);
   if (Lex.is(Last)) {
-    Lex.restorePosition();
+    Lex.setPosition(Start);
     return std::make_tuple(0, 0, true);
   }
   for (;;) {
@@ -1848,7 +1849,7 @@ Parser<Objects...>::numberOfKeys(Lexer &Lex) {
     if (!Lex.goToNext())
       return std::make_tuple(0, 0, false);
   }
-  Lex.restorePosition();
+  Lex.setPosition(Start);
   return std::make_tuple(
     Count, Last == Token::RIGHT_BRACE ? MaxIdx : Count - 1, true);
 }
-- 
2.43.0


From ad960e19bf5b4a7b8ae6f177486bfc61c924909f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:24 +0000
Subject: [PATCH 91/99] fix: a JSON object without a name is reported as such

---
 include/bcl/Json.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bcl/Json.h b/include/bcl/Json.h
index f943ea6..b6a230e 100644
--- a/include/bcl/Json.h
+++ b/include/bcl/Json.h
@@ -1047,7 +1047,7 @@ private:
       }
       if (!mLex.goToNext())
         return false;
-      if (mLex.is(Token::RIGHT_BRACE) && mLex.next() < mLex.json().size())
+      if (mLex.is(Token::RIGHT_BRACE))
         break;
       if (!mLex.checkSpecial(Token::COMMA))
         return false;
-- 
2.43.0


From 7dbb9ab56af0b9e0fd1f1624d2961ff403e242aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:28 +0000
Subject: [PATCH 92/99] fix: Diagnostic.h includes what it uses

---
 include/bcl/Diagnostic.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/bcl/Diagnostic.h b/include/bcl/Diagnostic.h
index fc89ce2..e0cb793 100644
--- a/include/bcl/Diagnostic.h
+++ b/include/bcl/Diagnostic.h
@@ -28,6 +28,8 @@
 #ifndef BCL_DIAGNOSTIC_H
 #define BCL_DIAGNOSTIC_H
 
+#include <cstdint>
+#include <cstdio>
 #include <cstring>
 #include <memory>
 #include <vector>
-- 
2.43.0


From b535fec3c64298490461d69e2a61f326e87c226b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:28 +0000
Subject: [PATCH 93/99] fix: Json.h includes what it uses

---
 include/bcl/Json.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/bcl/Json.h b/include/bcl/Json.h
index b6a230e..f80be8f 100644
--- a/include/bcl/Json.h
+++ b/include/bcl/Json.h
@@ -228,6 +228,9 @@
 #include "Diagnostic.h"
 #include "utility.h"
 #include <cctype>
+#include <cstdint>
+#include <cstdio>
+#include <cstring>
 #include <limits>
 #include <map>
 #include <memory>
-- 
2.43.0


From 1ea35562736ac5fa234fa5d8fc0b1278bf4f68b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:28 +0000
Subject: [PATCH 94/99] fix: CSocket.h includes what it uses

---
 include/bcl/CSocket.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/bcl/CSocket.h b/include/bcl/CSocket.h
index 7d76c49..5bb7ea1 100644
--- a/include/bcl/CSocket.h
+++ b/include/bcl/CSocket.h
@@ -36,6 +36,7 @@
 #define BCL_C_SOCKET_H
 
 #include <bcl/Socket.h>
+#include <cstdint>
 #include <functional>
 
 namespace bcl {
-- 
2.43.0


From 1d237020cc22561e57b94bd244f1fdebf546493d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:28 +0000
Subject: [PATCH 95/99] fix: ValuePtrWrapper.h includes what it uses

---
 include/bcl/ValuePtrWrapper.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/bcl/ValuePtrWrapper.h b/include/bcl/ValuePtrWrapper.h
index 13916e4..dffd570 100644
--- a/include/bcl/ValuePtrWrapper.h
+++ b/include/bcl/ValuePtrWrapper.h
@@ -25,6 +25,8 @@
 #ifndef BCL_VALUE_PTR_WRAPPER_H
 #define BCL_VALUE_PTR_WRAPPER_H
 
+#include <utility>
+
 namespace bcl {
 /// This is a wrapper for a value of a specified type `T` which knows a pointer
 /// referenced this value.
-- 
2.43.0


From c920c80070efef8158e101b92dc84361cb049fdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:07 +0000
Subject: [PATCH 96/99] fix: the package configuration tells options of
 subdirectories

---
 CMakeLists.txt | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/CMakeLists.txt b/CMakeLists.txt
index 7ee3046..058d659 100644
--- a/CMakeLists.txt
+++ b/CMakeLists.txt
@@ -83,8 +83,6 @@ include(CMakePackageConfigHelpers)
 write_basic_package_version_file(
   "${CMAKE_CURRENT_BINARY_DIR}/bcl/BCLConfigVersion.cmake"
   COMPATIBILITY AnyNewerVersion)
-configure_file(cmake/BCLConfig.cmake.in
-  ${CMAKE_CURRENT_BINARY_DIR}/bcl/BCLConfig.cmake @ONLY)
 
 # Copy all implemented CMake modules to binary directory.
 file(GLOB_RECURSE BCL_CMAKE_MODULES "cmake/*.cmake")
@@ -119,3 +117,5 @@ endif()
 
 # Defer configuration because some options are set in subdirectories.
 configure_file("include/bcl/bcl-config.h.in" "bcl/bcl-config.h")
+configure_file(cmake/BCLConfig.cmake.in
+  ${CMAKE_CURRENT_BINARY_DIR}/bcl/BCLConfig.cmake @ONLY)
-- 
2.43.0


From d21bd0748643cf5c764a7c7e65669aba8c91a9f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:07 +0000
Subject: [PATCH 97/99] fix: the C socket library of an installed package is
 found

---
 cmake/BCLConfig.cmake.in | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/cmake/BCLConfig.cmake.in b/cmake/BCLConfig.cmake.in
index 4d52f62..7361456 100644
--- a/cmake/BCLConfig.cmake.in
+++ b/cmake/BCLConfig.cmake.in
@@ -35,17 +35,19 @@ set(BCL_NODEJS_SOCKET @BCL_NODEJS_SOCKET@)
 # ON if CSocket is available, OFF otherwise.
 set(BCL_C_SOCKET @BCL_C_SOCKET@)
 
-if (BCL_C_SOCKET)
-  # Export alias for convenience.
-  add_library(BCL::CSocket ALIAS BCLCSocket)
-endif()
-
 if (EXISTS ${CMAKE_CURRENT_LIST_DIR}/BCLExports.cmake)
   # ON if BCLExports.cmake is available.
   set(BCL_EXPORT ON)
 
   include(${CMAKE_CURRENT_LIST_DIR}/BCLExports.cmake)
 
+  if(BCL_C_SOCKET AND NOT TARGET BCL::CSocket)
+    # Export alias for convenience.
+    add_library(BCL::CSocket INTERFACE IMPORTED)
+    set_target_properties(BCL::CSocket PROPERTIES
+      INTERFACE_LINK_LIBRARIES BCL::BCLCSocket)
+  endif()
+
   # List of headers from the core of BCL.
   get_property(BCL_CORE_HEADERS TARGET BCL::Core PROPERTY INTERFACE_SOURCES)
 
@@ -61,6 +63,11 @@ else()
 
   add_library(BCL::Core ALIAS Core)
 
+  if(BCL_C_SOCKET)
+    # Export alias for convenience.
+    add_library(BCL::CSocket ALIAS BCLCSocket)
+  endif()
+
   if(BCL_NODEJS_SOCKET)
     add_library(BCL::NodeJSSocket ALIAS NodeJSSocket)
   endif()
-- 
2.43.0


From 8a6e1ba276b48a5e50067f2ccdf8996c74b65c6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:23 +0000
Subject: [PATCH 98/99] fix: a project which is configured again uses its own
 BCL targets

---
 cmake/BCLConfig.cmake.in | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cmake/BCLConfig.cmake.in b/cmake/BCLConfig.cmake.in
index 7361456..b31e041 100644
--- a/cmake/BCLConfig.cmake.in
+++ b/cmake/BCLConfig.cmake.in
@@ -35,7 +35,11 @@ set(BCL_NODEJS_SOCKET @BCL_NODEJS_SOCKET@)
 # ON if CSocket is available, OFF otherwise.
 set(BCL_C_SOCKET @BCL_C_SOCKET@)
 
-if (EXISTS ${CMAKE_CURRENT_LIST_DIR}/BCLExports.cmake)
+# BCLExports.cmake is generated at the end of configuration, so in case of
+# add_subdirectory() it is available if a project is configured again. However,
+# targets of the project must be used.
+if (EXISTS ${CMAKE_CURRENT_LIST_DIR}/BCLExports.cmake AND
+    NOT "${BCL_BINARY_DIR}/bcl" STREQUAL "${CMAKE_CURRENT_LIST_DIR}")
   # ON if BCLExports.cmake is available.
   set(BCL_EXPORT ON)
 
-- 
2.43.0


From 313e70a0949f3dde7c3e52f418c77f6d8daf5f2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:11 +0000
Subject: [PATCH 99/99] fix: bcl_replace compares options as they are written

---
 cmake/BCLUtils.cmake | 28 +++++++++++++++++++---------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/cmake/BCLUtils.cmake b/cmake/BCLUtils.cmake
index 8bc9fae..3085d86 100644
--- a/cmake/BCLUtils.cmake
+++ b/cmake/BCLUtils.cmake
@@ -14,16 +14,26 @@ endfunction()
 #
 # Example: bcl_replace(CMAKE_CXX_FLAGS_RELEASE "-O3" "-O2")
 function(bcl_replace VAR OLD NEW)
-  if("${${VAR}}" MATCHES "(^| )${NEW}($| )")
-    set(TMP "")
-  else()
-    set(TMP "${NEW}")
+  # Surround each option with its own spaces, so options can be compared as is.
+  string(REPLACE " " "  " FLAGS " ${${VAR}} ")
+  string(REPLACE " " "  " FROM "${OLD}")
+  string(REPLACE " " "  " TO "${NEW}")
+  string(FIND "${FLAGS}" " ${FROM} " HAS_OLD)
+  string(FIND "${FLAGS}" " ${TO} " HAS_NEW)
+  if(NOT "${OLD}" STREQUAL "${NEW}")
+    if("${OLD}" STREQUAL "")
+      set(HAS_OLD -1)
+    elseif(HAS_NEW EQUAL -1)
+      string(REPLACE " ${FROM} " " ${TO} " FLAGS "${FLAGS}")
+    else()
+      string(REPLACE " ${FROM} " "" FLAGS "${FLAGS}")
+    endif()
   endif()
-  if("${${VAR}}" MATCHES "(^| )${OLD}($| )")
-    string(REGEX REPLACE "(^| )${OLD}($| )" " ${TMP} " ${VAR} "${${VAR}}")
-  else()
-    set(${VAR} "${${VAR}} ${TMP}")
+  if(HAS_OLD EQUAL -1 AND HAS_NEW EQUAL -1)
+    set(FLAGS "${FLAGS} ${TO} ")
   endif()
-  set(${VAR} "${${VAR}}" PARENT_SCOPE)
+  string(REPLACE "  " " " FLAGS "${FLAGS}")
+  string(STRIP "${FLAGS}" FLAGS)
+  set(${VAR} "${FLAGS}" PARENT_SCOPE)
 endfunction(bcl_replace)
 
-- 
2.43.0

