From 77dcc705f30aa7569e0e3b7ea265f81e7e428d62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:59 +0000
Subject: [PATCH 001/152] fix: keep String hash codes consistent with the
 content

hashCode() returned a zero-extended value on its first call and a sign-extended
one afterwards, constHashCode() never agreed with the cached value, and the
cached value survived toLowerCase(), toUpperCase(), replace(Char, Char),
reverse() and assignment although the characters had changed.
---
 src/core/String.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/core/String.cpp b/src/core/String.cpp
index 92edf01..c1973db 100644
--- a/src/core/String.cpp
+++ b/src/core/String.cpp
@@ -290,7 +290,7 @@ int64 String::hashCode()
    uint32 hash = 0;
    for(int32 a = 0; a < mStrLength; a++)hash = (hash << 5) - hash + mValue[a].unicode();
    mHash = (int32) hash;
-   return hash;
+   return mHash;
 }
 
 int64 String::constHashCode() const
@@ -298,7 +298,7 @@ int64 String::constHashCode() const
    if(mHash != 0)return mHash;
    uint32 hash = 0;
    for(int32 a = 0; a < mStrLength; a++)hash = (hash << 5) - hash + mValue[a].unicode();
-   return hash;
+   return (int32) hash;
 }
 
 String String::toLowerCase() const
@@ -310,6 +310,7 @@ String String::toLowerCase() const
       ret.mValue[a] = ret.mValue[a].toLowerCase();;
    }
 
+   ret.mHash = 0;
    return ret;
 }
 
@@ -322,6 +323,7 @@ String String::toUpperCase() const
       ret.mValue[a] = ret.mValue[a].toUpperCase();
    }
 
+   ret.mHash = 0;
    return ret;
 }
 
@@ -439,6 +441,7 @@ String String::replace(Char oldChar, Char newChar) const
       if(ret.mValue[a] == oldChar)ret.mValue[a] = newChar;
    }
 
+   ret.mHash = 0;
    return ret;
 }
 
@@ -484,6 +487,7 @@ String String::reverse() const
       last--;
    }
 
+   ret.mHash = 0;
    return ret;
 }
 
@@ -1238,6 +1242,7 @@ namespace jm
          mStrLength = another.mStrLength;
          mArrLength = another.mArrLength;
          mValue = new Char[mArrLength];
+         mHash = another.mHash;
          memcpy(mValue, another.mValue, sizeof(Char) * mStrLength);
       }
 
-- 
2.43.0


From add8da90d160ba97e5efc77aa8f3e941313c96d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:59 +0000
Subject: [PATCH 002/152] fix: do not read past the end of the string in
 String::indexOf(String)

---
 src/core/String.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/String.cpp b/src/core/String.cpp
index c1973db..e9a32b3 100644
--- a/src/core/String.cpp
+++ b/src/core/String.cpp
@@ -370,7 +370,7 @@ int64 String::indexOf(const String& str, int64 fromIndex) const
 {
    if(fromIndex < 0)fromIndex = 0;
 
-   for(int64 a = fromIndex; a < mStrLength; a++)
+   for(int64 a = fromIndex; a < mStrLength && a + str.mStrLength <= mStrLength; a++)
    {
       bool found = true;
       for(int64 b = 0 ; b < str.mStrLength; b++)
-- 
2.43.0


From 65e72aec671e4f87e4e9663f29df63d2dd2b3afc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:59 +0000
Subject: [PATCH 003/152] fix: String::replace() with an empty search string
 never returned

---
 src/core/String.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/core/String.cpp b/src/core/String.cpp
index e9a32b3..c1a96c5 100644
--- a/src/core/String.cpp
+++ b/src/core/String.cpp
@@ -447,6 +447,8 @@ String String::replace(Char oldChar, Char newChar) const
 
 String String::replace(const String& oldStr, const String& newStr)const
 {
+   if(oldStr.mStrLength == 0)return *this;
+
    int64 pos1 = 0;
    int64 pos2 = indexOf(oldStr);
    if(pos2 < 0)return *this;
-- 
2.43.0


From 70f7e2ab70b86282870c16112a318ea635384496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:18 +0000
Subject: [PATCH 004/152] fix: String::insert() of a string into itself

---
 src/core/String.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/core/String.cpp b/src/core/String.cpp
index c1a96c5..4bfc704 100644
--- a/src/core/String.cpp
+++ b/src/core/String.cpp
@@ -555,6 +555,13 @@ void String::insert(int64 index, const String& str)
    if(index < 0 || index > mStrLength)
       throw Exception(Tr("Index out of Bounds: %1 of %2").arg(index).arg(mStrLength));
 
+   // The characters are moved before they are read, so this string cannot be its own source.
+   if(&str == this)
+   {
+      insert(index, String(str));
+      return;
+   }
+
    int64 len = str.size();
    checkCapacity(len);
 
-- 
2.43.0


From 656280c6024cdff251ced1352f0979ba78def621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:18 +0000
Subject: [PATCH 005/152] fix: String::deleteCharRangeAt() past the end left a
 string of negative size

---
 src/core/String.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/core/String.cpp b/src/core/String.cpp
index 4bfc704..60c75e0 100644
--- a/src/core/String.cpp
+++ b/src/core/String.cpp
@@ -591,6 +591,10 @@ void String::deleteCharRangeAt(int64 index, int64 length)
    if(index < 0 || index > mStrLength)
       throw Exception(Tr("Index out of Bounds: %1 of %2").arg(index).arg(mStrLength));
 
+   // There is nothing to delete behind the end of the string.
+   if(length < 0)length = 0;
+   if(length > mStrLength - index)length = mStrLength - index;
+
    for(int64 a = index ; a < mStrLength - length; a++)
    {
       mValue[a] = mValue[a + length];
-- 
2.43.0


From 1b926599fc375d56b3facd9fd3a529a114743628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:18 +0000
Subject: [PATCH 006/152] fix: String::atIs() read in front of the string for
 negative positions

---
 src/core/String.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/String.cpp b/src/core/String.cpp
index 60c75e0..6fb8d64 100644
--- a/src/core/String.cpp
+++ b/src/core/String.cpp
@@ -260,7 +260,7 @@ bool String::endsWith(const String& another) const
 
 bool String::atIs(int64 position, const String& another)
 {
-   if(position + another.mStrLength > mStrLength)return false;
+   if(position < 0 || position + another.mStrLength > mStrLength)return false;
 
    for(int64 a = 0; a < another.mStrLength; a++)
    {
@@ -272,7 +272,7 @@ bool String::atIs(int64 position, const String& another)
 
 bool String::atIsIgnoreCase(int64 position, const String& another)
 {
-   if(position + another.mStrLength > mStrLength)return false;
+   if(position < 0 || position + another.mStrLength > mStrLength)return false;
 
    for(int64 a = 0; a < another.mStrLength; a++)
    {
-- 
2.43.0


From 4edb2441fba6de9eb59b55e47f39d30f18875581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:36 +0000
Subject: [PATCH 007/152] fix: String::arg() on a percent sign without a
 number, and on %0n

A text without any placeholder but with a percent sign ("100 %") got the value
prepended, and of a placeholder with a leading zero only the first digit was
replaced.
---
 src/core/String.cpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/core/String.cpp b/src/core/String.cpp
index 6fb8d64..7d2e884 100644
--- a/src/core/String.cpp
+++ b/src/core/String.cpp
@@ -807,22 +807,24 @@ bool String::argIndicies(int64& first, int64& second) const
       if(charAt(index) == Char('%') && charAt(index + 1).isDigit())
       {
          int64 number = charAt(index + 1).digitValue();
-         if(index + 2 < mStrLength && charAt(index + 2).isDigit())
+         int64 end = index + 2;
+         if(end < mStrLength && charAt(end).isDigit())
          {
             number *= 10;
-            number += charAt(index + 2).digitValue();
+            number += charAt(end).digitValue();
+            end++;
          }
          if(number < lowest)
          {
             first = index;
-            second = index + 2;
-            if(number > 9)second++;
+            second = end;
             lowest = number;
          }
       }
    }
 
-   return true;
+   // A percent sign alone is no placeholder.
+   return first >= 0;
 }
 
 String String::arg(Char character,
-- 
2.43.0


From 7bc5b4e433695fc84125c9e01e316fc40f510703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:36 +0000
Subject: [PATCH 008/152] fix: String::valueOf() of the lowest int64

---
 src/core/String.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/core/String.cpp b/src/core/String.cpp
index 7d2e884..acc0d85 100644
--- a/src/core/String.cpp
+++ b/src/core/String.cpp
@@ -986,10 +986,13 @@ String String::valueOf(int64 number)
    String ret;
    bool neg = false;
 
+   // The amount of the lowest number is no int64
+   uint64 amount = static_cast<uint64>(number);
+
    // Check sign
    if(number < 0)
    {
-      number *= -1;
+      amount = 0 - amount;
       neg = true;
    }
    // Check 0
@@ -999,10 +1002,10 @@ String String::valueOf(int64 number)
    }
 
    // Solve the individual digits... Attention: the last digit comes first
-   while(number > 0)
+   while(amount > 0)
    {
-      int64 digit = number % 10;
-      number = number / 10;
+      int64 digit = amount % 10;
+      amount = amount / 10;
       ret.append(Char(digit + '0'));
    }
    if(neg)ret.append('-');
-- 
2.43.0


From b6cd559e7e11af4ac3bd144a4f893d7d6660c9c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:36 +0000
Subject: [PATCH 009/152] fix: String::arg(uint64) printed values above the
 int64 range as negative numbers

---
 src/core/String.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/String.cpp b/src/core/String.cpp
index acc0d85..81fbc9c 100644
--- a/src/core/String.cpp
+++ b/src/core/String.cpp
@@ -908,7 +908,7 @@ String String::arg(uint64 value,
                    int64 fieldWidth,
                    Char fillchar) const
 {
-   return arg(static_cast<int64>(value), fieldWidth, fillchar);
+   return arg(String::valueOf(value), fieldWidth, fillchar);
 }
 
 String String::arg(const String& value,
-- 
2.43.0


From f86b89bc52dac47101019a06d9ed02bf9bb726d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:36 +0000
Subject: [PATCH 010/152] fix: String::toInt() accepted a minus sign anywhere
 in the number

---
 src/core/String.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/String.cpp b/src/core/String.cpp
index 81fbc9c..2ed7471 100644
--- a/src/core/String.cpp
+++ b/src/core/String.cpp
@@ -1141,7 +1141,7 @@ int64 String::toInt() const
          val *= 10;
          val += c.digitValue();
       }
-      else if(c == '-')neg = true;
+      else if(c == '-' && a == 0)neg = true;
       else throw jm::Exception("Number format exception for input string: \"" + *this + "\"");
    }
 
-- 
2.43.0


From fa4c4ce7af202cfad627bd173aac3229a97057b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:59 +0000
Subject: [PATCH 011/152] fix: Integer::toLatinAlphabetString() on multiples of
 26 and large numbers

---
 src/core/Integer.cpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/core/Integer.cpp b/src/core/Integer.cpp
index 99e21ab..53e6a5a 100644
--- a/src/core/Integer.cpp
+++ b/src/core/Integer.cpp
@@ -149,12 +149,11 @@ jm::String Integer::toLatinAlphabetString(int64 number)
 
    while(number > 0)
    {
-      int32 div = static_cast<int32>(number / 26);
-      int16 rest = (int16)(number % 26 - 1);
+      // There is no digit zero: A is 1 and Z is 26.
+      number--;
+      output.append('A' + static_cast<int16>(number % 26));
 
-      output.append('A' + rest);
-
-      number = div;
+      number = number / 26;
    }
 
    //Zahlen umkehren
-- 
2.43.0


From 4942d7788ede4f30f36d96f507ad6c70cb328ab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:59 +0000
Subject: [PATCH 012/152] fix: Integer::toHexString() returned an empty string
 for negative numbers

---
 src/core/Integer.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/core/Integer.cpp b/src/core/Integer.cpp
index 53e6a5a..2eb76ce 100644
--- a/src/core/Integer.cpp
+++ b/src/core/Integer.cpp
@@ -106,13 +106,16 @@ jm::String Integer::toHexString(int64 number)
       return ret;
    }
 
-   int32 base = 16;
+   const uint64 base = 16;
+
+   // Negative numbers are shown as two's complement, as fromHex() expects it.
+   uint64 value = static_cast<uint64>(number);
 
    //Löse die einzelnen Zahlen auf... Achtung: die letzte Ziffer kommt zuerst
-   while(number > 0)
+   while(value > 0)
    {
-      int64 digit = number % base;
-      number = number / base;
+      uint64 digit = value % base;
+      value = value / base;
       ret.append(gMask[digit]);
    }
 
-- 
2.43.0


From e4e2dba26cebcff6409e3dbe1927c19092093b43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:59 +0000
Subject: [PATCH 013/152] fix: Integer::digits() of the lowest int64

---
 src/core/Integer.cpp | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/core/Integer.cpp b/src/core/Integer.cpp
index 2eb76ce..b53b542 100644
--- a/src/core/Integer.cpp
+++ b/src/core/Integer.cpp
@@ -40,13 +40,9 @@ const jm::String gRoman[] = {"I", "IV", "V", "IX", "X", "XL", "L", "XC", "C", "C
 uint8 Integer::digits(int64 number)
 {
    uint8 i = 1;
-   if(number < 0)
-   {
-      number *= -1;
-      i++;
-   }
+   if(number < 0) i++;
 
-   while(number > 9)
+   while(number > 9 || number < -9)
    {
       number = number / 10;
       i++;
-- 
2.43.0


From a5d27262fe625bcf4be1b9ed3c13a560ea32f934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:59 +0000
Subject: [PATCH 014/152] fix: define Hashtable::isEmpty() and
 Hashtable::containsValue()

Both are declared and documented, but no program that calls them could be linked.
---
 src/core/Hashtable.cpp | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/core/Hashtable.cpp b/src/core/Hashtable.cpp
index a1b7c86..2858c07 100644
--- a/src/core/Hashtable.cpp
+++ b/src/core/Hashtable.cpp
@@ -165,6 +165,24 @@ int64 Hashtable::size() const noexcept
    return mDataLength;
 }
 
+bool Hashtable::isEmpty() const noexcept
+{
+   return mDataLength == 0;
+}
+
+bool Hashtable::containsValue(void* value) const noexcept
+{
+   for(int64 index = 0; index < mArrLength; index++)
+   {
+      for(HashtableEntry* e = mData[index]; e != nullptr; e = e->next)
+      {
+         if(e->value == value)return true;
+      }
+   }
+
+   return false;
+}
+
 void Hashtable::rehash() noexcept
 {
    int64 oldLength = mArrLength;
-- 
2.43.0


From 1e707371ca04c5911ac295f1b5bdb98f42944e27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:00 +0000
Subject: [PATCH 015/152] fix: ByteArray::replace() ignored the target offset
 and the size of the source

---
 src/core/ByteArray.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/ByteArray.cpp b/src/core/ByteArray.cpp
index 93f8c0a..73da303 100644
--- a/src/core/ByteArray.cpp
+++ b/src/core/ByteArray.cpp
@@ -197,10 +197,10 @@ void ByteArray::replace(int64 tgtOffset, int64 srcOffset, const ByteArray& buffe
                         int64 length)
 {
    int64 range = std::min(length, mArrSize - tgtOffset);
-
+   range = std::min(range, buffer.mArrSize - srcOffset);
    for(int64 a = 0; a < range; a++)
    {
-      mData[a] = buffer.mData[srcOffset + a];
+      mData[tgtOffset + a] = buffer.mData[srcOffset + a];
    }
 }
 
-- 
2.43.0


From d920486327fd1e52cdc4d23363734683d1c11e05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:14 +0000
Subject: [PATCH 016/152] fix: ByteArray::resize() neither terminated nor
 cleared the new bytes

Growing beyond the allocated size left the terminator unset (and released the
array with the wrong delete), growing again after shrinking brought back bytes
that had been cut off.
---
 src/core/ByteArray.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/core/ByteArray.cpp b/src/core/ByteArray.cpp
index 73da303..771bf2d 100644
--- a/src/core/ByteArray.cpp
+++ b/src/core/ByteArray.cpp
@@ -217,6 +217,8 @@ void ByteArray::resize(int64 newSize)
 {
    if(newSize <= mRawSize - 1)
    {
+      // Bytes behind the former end are left over from a bigger array
+      for(int64 index = mArrSize; index < newSize; index++)mData[index] = 0;
       mArrSize = newSize;
       mData[mArrSize] = 0;
    }
@@ -227,13 +229,14 @@ void ByteArray::resize(int64 newSize)
       {
          tmp[index] = mData[index];
       }
-      for(int64 index = mArrSize; index < newSize; index++)
+      // including the terminator
+      for(int64 index = mArrSize; index <= newSize; index++)
       {
          tmp[index] = 0;
       }
       mRawSize = newSize + 1;
       mArrSize = newSize;
-      if(mData != nullptr)delete mData;
+      if(mData != nullptr)delete[] mData;
       mData = tmp;
    }
 }
-- 
2.43.0


From b5760caf3081f6d9dd5a69eec75d462715f415b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:15 +0000
Subject: [PATCH 017/152] fix: the copy of a null ByteArray was not null, and
 not terminated either

---
 src/core/ByteArray.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/ByteArray.cpp b/src/core/ByteArray.cpp
index 771bf2d..5ef3409 100644
--- a/src/core/ByteArray.cpp
+++ b/src/core/ByteArray.cpp
@@ -91,7 +91,7 @@ ByteArray::ByteArray(const ByteArray& other) : Object()
 {
    mArrSize = other.mArrSize;
    mRawSize = other.mRawSize;
-   mData = new uint8[mRawSize];
+   mData = other.mData != nullptr ? new uint8[mRawSize] : nullptr;
    for(int64 index = 0; index < mRawSize; index++)
    {
       mData[index] = other.mData[index];
@@ -263,7 +263,7 @@ ByteArray& jm::ByteArray::operator=(const ByteArray& another)
 
       mArrSize = another.mArrSize;
       mRawSize = another.mRawSize;
-      mData = new uint8[mRawSize];
+      mData = another.mData != nullptr ? new uint8[mRawSize] : nullptr;
       for(int64 a = 0; a < mRawSize; a++)
       {
          mData[a] = another.mData[a];
-- 
2.43.0


From 7d579564ad2e95a0aba1951e0e37eb8295eaf6d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:15 +0000
Subject: [PATCH 018/152] fix: StringList::append() and remove() of an element
 of the list itself

append() read the element after its array had been deleted, remove() went on
comparing with the element that had moved into its place.
---
 src/core/StringList.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/core/StringList.cpp b/src/core/StringList.cpp
index 1ae6fee..8d8ee92 100644
--- a/src/core/StringList.cpp
+++ b/src/core/StringList.cpp
@@ -82,15 +82,19 @@ void StringList::reserve(int64 size)
 
 void StringList::append(const jm::String& string)
 {
+   // The string may be an element of this list
+   const String item = string;
    checkSize(1);
-   mData[mSize++] = string;
+   mData[mSize++] = item;
 }
 
 void StringList::remove(const jm::String& string)
 {
+   // The string may be an element of this list
+   const String item = string;
    for(int64 index = 0; index < mSize; index++)
    {
-      if(mData[index] == string)
+      if(mData[index] == item)
       {
          for(int64 index2 = index + 1; index2 < mSize; index2++)
          {
-- 
2.43.0


From bf5d143f9464fdea4e6682aef8d58c2f668e66e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:42 +0000
Subject: [PATCH 019/152] fix: LinkedList::swapData() did nothing without an
 undo manager

---
 src/core/LinkedList.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/LinkedList.cpp b/src/core/LinkedList.cpp
index 0ee10a3..699ae69 100644
--- a/src/core/LinkedList.cpp
+++ b/src/core/LinkedList.cpp
@@ -291,9 +291,9 @@ void LinkedList::swapData(Object* data1, Object* data2, UndoManager* um)
       {
          um->registerChange(elem1, (Object**) & (elem1->data));
          um->registerChange(elem2, (Object**) & (elem2->data));
-         elem1->data = data2;
-         elem2->data = data1;
       }
+      elem1->data = data2;
+      elem2->data = data1;
    }
 }
 
-- 
2.43.0


From 5d32b3a1e98c851e7a66d8bc82cd9a4fa0912d41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:42 +0000
Subject: [PATCH 020/152] fix: undoing LinkedList::add() left the reference of
 the list on the element, which leaked

---
 src/core/LinkedList.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/core/LinkedList.cpp b/src/core/LinkedList.cpp
index 699ae69..9430efa 100644
--- a/src/core/LinkedList.cpp
+++ b/src/core/LinkedList.cpp
@@ -133,6 +133,7 @@ void LinkedList::add(LListElement* item, UndoManager* um)
       if(listStart == nullptr)um->registerChange(this, reinterpret_cast<Object * *>(&listStart));
       um->registerChange(this, reinterpret_cast<Object**>(&listEnd));
       um->registerChange(this, &count);
+      um->registerRetain(item);
    }
 
    item->prev = listEnd;
@@ -190,6 +191,7 @@ void LinkedList::addBefore(LListElement* addBeforeThis, LListElement* itemToAdd,
       if(addBeforeThis->prev != nullptr)um->registerChange(addBeforeThis,
                (Object* *) & (addAfterThis->next));
       um->registerChange(this, &count);
+      um->registerRetain(itemToAdd);
    }
 
    //Listenanfang anpassen
-- 
2.43.0


From 8c50d5b8d78eb24f256e34f6fa6f1f6dc7d9210c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:42 +0000
Subject: [PATCH 021/152] fix: undo and redo during an open transaction mixed
 up the changes of both

---
 src/core/UndoManager.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/UndoManager.cpp b/src/core/UndoManager.cpp
index 2d047fd..62c5bfc 100644
--- a/src/core/UndoManager.cpp
+++ b/src/core/UndoManager.cpp
@@ -82,7 +82,7 @@ bool UndoManager::hasOpenUndoStep() const
 
 bool UndoManager::undo()
 {
-   if(mOpen)return false;
+   if(mOpen || mTransactionLevel > 0)return false;
    if(mUndoStack == nullptr)return false;
    mUndoing = true;
 
@@ -114,7 +114,7 @@ bool UndoManager::undo()
 
 bool UndoManager::redo()
 {
-   if(mOpen) return false;
+   if(mOpen || mTransactionLevel > 0)return false;
    if(mRedoStack == nullptr)return false;
    mUndoing = true;
 
-- 
2.43.0


From cdc22bc04da54d7fbb3a3dea5cafc2cb3d53b2cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:42 +0000
Subject: [PATCH 022/152] fix: an undo manager destroyed during a transaction
 leaked the changes of the transaction

---
 src/core/UndoManager.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/core/UndoManager.cpp b/src/core/UndoManager.cpp
index 62c5bfc..62dc68a 100644
--- a/src/core/UndoManager.cpp
+++ b/src/core/UndoManager.cpp
@@ -58,6 +58,7 @@ UndoManager::~UndoManager()
 {
    clearStacks();
    delete mCurrent;
+   delete mTransaction;
 }
 
 void UndoManager::setDocument(Document* document)
-- 
2.43.0


From 19f983b80009c75c04987cb55f9ab7ea328809ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:42 +0000
Subject: [PATCH 023/152] fix: setting a member to NaN did not fail the open
 transaction

---
 src/core/EditableObject.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/core/EditableObject.cpp b/src/core/EditableObject.cpp
index 708ea33..512873d 100644
--- a/src/core/EditableObject.cpp
+++ b/src/core/EditableObject.cpp
@@ -87,11 +87,17 @@ Status EditableObject::setMember(int64* pointer,
 
 Status EditableObject::setMember(double* pointer, double value)
 {
-   if(isNaN(value))return Status::eInvalidInput;
-   if(value == *pointer)return Status::eNotChanged;
-
    UndoManager* um = nullptr;
    if(mDocument != nullptr)um = mDocument->undoManager();
+
+   if(isNaN(value))
+   {
+      Status status = Status::eInvalidInput;
+      if(um != nullptr)um->registerTransactionStatus(status);
+      return status;
+   }
+   if(value == *pointer)return Status::eNotChanged;
+
    if(um != nullptr)um->registerChange(this, pointer);
    *pointer = value;
    return Status::eOK;
-- 
2.43.0


From 50faf910ea815398c47e4808eef8ef60feb7691a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:34 +0000
Subject: [PATCH 024/152] fix: AutoreleasePool::drain() deadlocked if a
 destructor autoreleases another object

---
 src/core/AutoreleasePool.cpp | 32 +++++++++++++++++++-------------
 1 file changed, 19 insertions(+), 13 deletions(-)

diff --git a/src/core/AutoreleasePool.cpp b/src/core/AutoreleasePool.cpp
index cdf32a9..c040c9e 100644
--- a/src/core/AutoreleasePool.cpp
+++ b/src/core/AutoreleasePool.cpp
@@ -55,22 +55,28 @@ AutoreleasePool::~AutoreleasePool()
 
 void AutoreleasePool::drain()
 {
-   mPoolMutex.lock();
-   PoolEntry* pool = mPool->next;
-
-   while(pool != nullptr)
+   while(true)
    {
-      //Release objects
-      pool->object->release();
+      // Take over all entries. The objects are released without holding the lock, because their
+      // destructors may use this pool.
+      mPoolMutex.lock();
+      PoolEntry* pool = mPool->next;
+      mTop = mPool;
+      mPool->next = nullptr;
+      mPoolMutex.unlock();
 
-      PoolEntry* next = pool->next;
-      delete pool;
-      pool = next;
-   }
+      if(pool == nullptr)return;
 
-   mTop = mPool;
-   mPool->next = nullptr;
-   mPoolMutex.unlock();
+      while(pool != nullptr)
+      {
+         //Release objects
+         pool->object->release();
+
+         PoolEntry* next = pool->next;
+         delete pool;
+         pool = next;
+      }
+   }
 }
 
 void AutoreleasePool::add(Object* object)
-- 
2.43.0


From fa1a8709efef8d64f6f3e660b902902f4e1b9513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:34 +0000
Subject: [PATCH 025/152] fix: Thread::interrupt() directly after start() got
 lost and never returned

---
 src/core/Thread.cpp | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/core/Thread.cpp b/src/core/Thread.cpp
index 8ce9893..474b580 100644
--- a/src/core/Thread.cpp
+++ b/src/core/Thread.cpp
@@ -39,10 +39,6 @@ void* StartThread(void* arg)
 {
    Thread* t = (Thread*)arg;
 
-   pthread_mutex_lock(&t->criticalSection);
-   t->alive = true;
-   pthread_mutex_unlock(&t->criticalSection);
-
    t->run();
    pthread_exit(nullptr);
 }
@@ -96,7 +92,20 @@ void Thread::start()
    #if defined __APPLE__ || defined __linux__
    void* arg = (void*)this;
 
+
+   // Must be set before the thread runs, otherwise an early interrupt() gets lost.
+   pthread_mutex_lock(&criticalSection);
+   alive = true;
+   pthread_mutex_unlock(&criticalSection);
+
    int ret = pthread_create(&thread, nullptr, StartThread, arg);
+   if(ret != 0)
+   {
+      thread = 0;
+      pthread_mutex_lock(&criticalSection);
+      alive = false;
+      pthread_mutex_unlock(&criticalSection);
+   }
    if(ret != 0)throw Exception("Error on starting Thread");
    #elif defined _WIN32
    void* arg = (void*)this;
-- 
2.43.0


From 277944cad1bd0f4c6ba3454dbc41d5be531c5350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:34 +0000
Subject: [PATCH 026/152] fix: a thread interrupted just before sleep() slept
 for ever

---
 src/core/Thread.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/core/Thread.cpp b/src/core/Thread.cpp
index 474b580..c02422a 100644
--- a/src/core/Thread.cpp
+++ b/src/core/Thread.cpp
@@ -134,7 +134,7 @@ void Thread::sleep(int64 millis)
    ts.tv_nsec = ts.tv_nsec % 1000000000L;
 
    pthread_mutex_lock(&criticalSection);
-   pthread_cond_timedwait(&cond, &criticalSection, &ts);
+   if(alive)pthread_cond_timedwait(&cond, &criticalSection, &ts);
    pthread_mutex_unlock(&criticalSection);
    #elif defined _WIN32
    ::Sleep(millis);
@@ -163,7 +163,8 @@ void Thread::sleep()
 {
    #if defined __APPLE__ || defined __linux__
    pthread_mutex_lock(&criticalSection);
-   pthread_cond_wait(&cond, &criticalSection);
+   // An interrupt() before this call would not wake up the thread any more
+   if(alive)pthread_cond_wait(&cond, &criticalSection);
    pthread_mutex_unlock(&criticalSection);
    #elif defined _WIN32
    //	EnterCriticalSection((CRITICAL_SECTION*)mCriticalSection);
-- 
2.43.0


From 4f5ad7a48508e3f96c58f0c47dfe7da61e6fbe01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:34 +0000
Subject: [PATCH 027/152] fix: Thread::interrupt() of a thread not running
 joined an invalid thread

---
 src/core/Thread.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/core/Thread.cpp b/src/core/Thread.cpp
index c02422a..dab8943 100644
--- a/src/core/Thread.cpp
+++ b/src/core/Thread.cpp
@@ -189,7 +189,11 @@ void Thread::interrupt()
    alive = false;
    pthread_mutex_unlock(&criticalSection);
    pthread_cond_signal(&cond);
+
+   // Not started or already joined
+   if(thread == 0)return;
    pthread_join(thread, nullptr);
+   thread = 0;
    #elif defined _WIN32
    TerminateThread(mHandle, 0);
    #endif
-- 
2.43.0


From 742a82b5dea68a3a09c801747664e0be7abd0415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:20 +0000
Subject: [PATCH 028/152] fix: String::valueOf(double) lost the minus sign of
 small numbers

---
 src/core/String.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/String.cpp b/src/core/String.cpp
index 2ed7471..aa78193 100644
--- a/src/core/String.cpp
+++ b/src/core/String.cpp
@@ -1074,7 +1074,7 @@ String String::valueOf(double number)
 
 String String::valueOf(double number, int64 precision, bool trunc)
 {
-   bool neg = jm::isLess(number, 0.0);
+   bool neg = number < 0.0;
    int64 before = static_cast<int64>(number);
    if(neg)before *= -1;
 
-- 
2.43.0


From e5e30ea97b514ec68e1fffe03e2ecc0d1407a705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:20 +0000
Subject: [PATCH 029/152] fix: String::valueOf(double) printed a digit after
 the separator for precision 0

---
 src/core/String.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/core/String.cpp b/src/core/String.cpp
index aa78193..9d875e0 100644
--- a/src/core/String.cpp
+++ b/src/core/String.cpp
@@ -1095,6 +1095,9 @@ String String::valueOf(double number, int64 precision, bool trunc)
 
    String b = String::valueOf(before);
    if(neg)b.insert(0, '-');
+   // No digits after the decimal separator
+   if(precision <= 0)return b;
+
 
    String a = String::valueOf(after);
    while(a.size() < precision)a.insert(0, '0');
-- 
2.43.0


From 46ae9b0de30c8e5c72f82c73af990c263f1864bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:30 +0000
Subject: [PATCH 030/152] fix: String::toInt() returned wrong numbers for text
 out of range

---
 src/core/String.cpp | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/src/core/String.cpp b/src/core/String.cpp
index 9d875e0..6c23d2c 100644
--- a/src/core/String.cpp
+++ b/src/core/String.cpp
@@ -1132,24 +1132,25 @@ double String::toDouble() const
 
 int64 String::toInt() const
 {
-   int64 val = 0;
-   bool neg = false;
+   // The amount of the lowest number is no int64
+   uint64 val = 0;
+   bool neg = startsWith("-");
+   const uint64 limit = neg ? 9223372036854775808ULL : 9223372036854775807ULL;
 
-   for(int64 a = 0; a < size(); a++)
+   for(int64 a = neg ? 1 : 0; a < size(); a++)
    {
       jm::Char c = charAt(a);
 
-      if(c.isDigit())
+      if(!c.isDigit() || val > (limit - c.digitValue()) / 10)
       {
-         val *= 10;
-         val += c.digitValue();
+         throw jm::Exception("Number format exception for input string: \"" + *this + "\"");
       }
-      else if(c == '-' && a == 0)neg = true;
-      else throw jm::Exception("Number format exception for input string: \"" + *this + "\"");
+
+      val *= 10;
+      val += c.digitValue();
    }
 
-   if(neg)val *= -1;
-   return val;
+   return static_cast<int64>(neg ? 0 - val : val);
 }
 
 bool String::isEmpty() const
-- 
2.43.0


From ac65fed0e59a585b4b989af94cc1657eeef3618b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:40 +0000
Subject: [PATCH 031/152] fix: UTF-16LE text was encoded in big endian byte
 order

---
 src/core/UTF16Decoder.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/UTF16Decoder.cpp b/src/core/UTF16Decoder.cpp
index d13e37b..cd4309a 100644
--- a/src/core/UTF16Decoder.cpp
+++ b/src/core/UTF16Decoder.cpp
@@ -97,9 +97,9 @@ ByteArray UTF16Decoder::encode(const CharArray& string)
    for(uint32 a = 0; a < string.length; a++)
    {
       uint16 character = string.buffer[a].unicode();
-      cstring[idx] = (int8)(character >> 8);
+      cstring[idx] = (int8)(be ? character >> 8 : character);
       idx++;
-      cstring[idx] = (int8)character;
+      cstring[idx] = (int8)(be ? character : character >> 8);
       idx++;
    }
    return cstring;
-- 
2.43.0


From b5a5122575e32762bc5345b5daddc4dbc84a031d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:40 +0000
Subject: [PATCH 032/152] fix: UTF-16 text ended at the first character with a
 zero byte or was read beyond its end

---
 src/core/String.cpp       | 20 +++++++++++++++++---
 src/core/UTF16Decoder.cpp |  4 ++--
 2 files changed, 19 insertions(+), 5 deletions(-)

diff --git a/src/core/String.cpp b/src/core/String.cpp
index 6c23d2c..6eedeea 100644
--- a/src/core/String.cpp
+++ b/src/core/String.cpp
@@ -77,10 +77,11 @@ String::String(const char* buffer, int64 size): Object(), Comparable<String>(),
 String::String(const char* buffer, int64 size, Charset* charset): Object(), Comparable<String>(),
    mHash(0)
 {
-   char* cstring = new char[size + 2];
+   char* cstring = new char[size + 3];
    memcpy(cstring, buffer, size);
    cstring[size] = 0;
    cstring[size + 1] = 0; //For UTF16 required
+   cstring[size + 2] = 0; //For UTF16 with an odd number of bytes
    CharArray array = charset->decode(cstring);
    copy(array);
    delete[] cstring;
@@ -134,8 +135,21 @@ String::String(const char* cstring, Charset* charset): Object(), Comparable<Stri
 String::String(const ByteArray& buffer, Charset* charset) : Object(), Comparable<String>(),
    mHash(0)
 {
-   CharArray array = charset->decode(buffer.constData());
-   copy(array);
+   if(buffer.size() > 0)
+   {
+      // The terminator of the byte array is one byte, UTF-16 needs a whole character.
+      String string(buffer.constData(), buffer.size(), charset);
+      mStrLength = string.mStrLength;
+      mArrLength = string.mArrLength;
+      mValue = string.mValue;
+      string.mValue = nullptr;
+   }
+   else
+   {
+      mStrLength = 0;
+      mArrLength = 16;
+      mValue = new Char[mArrLength];
+   }
 }
 
 String::~String()
diff --git a/src/core/UTF16Decoder.cpp b/src/core/UTF16Decoder.cpp
index cd4309a..2fa4bf4 100644
--- a/src/core/UTF16Decoder.cpp
+++ b/src/core/UTF16Decoder.cpp
@@ -43,7 +43,7 @@ CharArray UTF16Decoder::decode(const char* cstring)
    //Bestimme Länge
    uint32 strLength = 0;
    uint32 cntV = 0;
-   uint32 cntC = be ? 1 : 0;
+   uint32 cntC = 0;
    uint32 start = 0;
 
    //Prüfe auf Steuerzeichen am Anfang des cstring. Wenn vorhanden ignoriere
@@ -67,7 +67,7 @@ CharArray UTF16Decoder::decode(const char* cstring)
    }
 
 
-   while(cstring[cntC] != 0)
+   while(cstring[cntC] != 0 || cstring[cntC + 1] != 0)
    {
       cntC += 2;
       strLength++;
-- 
2.43.0


From 7eeef097766d77a79013dd912708b9a529f5c5d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:26 +0000
Subject: [PATCH 033/152] fix: RawDecoder sign-extended bytes above 0x7F

---
 src/core/CharsetDecoder.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/CharsetDecoder.cpp b/src/core/CharsetDecoder.cpp
index 051df0f..48fc87c 100644
--- a/src/core/CharsetDecoder.cpp
+++ b/src/core/CharsetDecoder.cpp
@@ -58,7 +58,7 @@ CharArray RawDecoder::decode(const char* cstring)
 
    for(uint32 a = 0; a < length; a++)
    {
-      array.buffer[a] = Char(cstring[a]);
+      array.buffer[a] = Char((uint8)cstring[a]);
    }
 
    return array;
-- 
2.43.0


From 09592bf09862fe1c22d70c9cdc14acb41afe7749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:26 +0000
Subject: [PATCH 034/152] fix: Windows-1252 0x88 is U+02C6, not U+20C6

---
 src/core/Windows1252Decoder.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/Windows1252Decoder.cpp b/src/core/Windows1252Decoder.cpp
index b3014b5..aaca226 100644
--- a/src/core/Windows1252Decoder.cpp
+++ b/src/core/Windows1252Decoder.cpp
@@ -46,7 +46,7 @@ Windows1252Decoder::Windows1252Decoder(): CharsetDecoder()
       0x0050, 0x0051, 0x0052, 0x0053, 0x0054, 0x0055, 0x0056, 0x0057, 0x0058, 0x0059, 0x005A, 0x005B, 0x005C, 0x005D, 0x005E, 0x005F,
       0x0060, 0x0061, 0x0062, 0x0063, 0x0064, 0x0065, 0x0066, 0x0067, 0x0068, 0x0069, 0x006A, 0x006B, 0x006C, 0x006D, 0x006E, 0x006F,
       0x0070, 0x0071, 0x0072, 0x0073, 0x0074, 0x0075, 0x0076, 0x0077, 0x0078, 0x0079, 0x007A, 0x007B, 0x007C, 0x007D, 0x007E, 0x007F,
-      0x20AC, 0x0000, 0x201A, 0x0192, 0x201E, 0x2026, 0x2020, 0x2021, 0x20C6, 0x2030, 0x0160, 0x2039, 0x0152, 0x0000, 0x017D, 0x0000, //
+      0x20AC, 0x0000, 0x201A, 0x0192, 0x201E, 0x2026, 0x2020, 0x2021, 0x02C6, 0x2030, 0x0160, 0x2039, 0x0152, 0x0000, 0x017D, 0x0000, //
       0x0000, 0x2018, 0x2019, 0x201C, 0x201D, 0x2022, 0x2013, 0x2014, 0x02DC, 0x2122, 0x0161, 0x203A, 0x0153, 0x0000, 0x017E, 0x0178, //
       0x00A0, 0x00A1, 0x00A2, 0x00A3, 0x00A4, 0x00A5, 0x00A6, 0x00A7, 0x00A8, 0x00A9, 0x00AA, 0x00AB, 0x00AC, 0x00AD, 0x00AE, 0x00AF,
       0x00B0, 0x00B1, 0x00B2, 0x00B3, 0x00B4, 0x00B5, 0x00B6, 0x00B7, 0x00B8, 0x00B9, 0x00BA, 0x00BB, 0x00BC, 0x00BD, 0x00BE, 0x00BF,
@@ -116,7 +116,7 @@ ByteArray Windows1252Decoder::encode(const CharArray& string)
             cstring[a] = (uint8)0x87;
             break;
 
-         case 0x20C6:
+         case 0x02C6:
             cstring[a] = (uint8)0x88;
             break;
 
-- 
2.43.0


From eba4dbf2bfbd99b71d8e00734cfe7529e863f0b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:26 +0000
Subject: [PATCH 035/152] fix: MacRoman decoded 0xB0 (infinity) as U+211E and
 could not encode DEL

---
 src/core/MacRomanDecoder.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/core/MacRomanDecoder.cpp b/src/core/MacRomanDecoder.cpp
index 058cfd2..0feb3fa 100644
--- a/src/core/MacRomanDecoder.cpp
+++ b/src/core/MacRomanDecoder.cpp
@@ -49,7 +49,7 @@ MacRomanDecoder::MacRomanDecoder(): CharsetDecoder()
       0x00C4, 0x00C5, 0x00C7, 0x00C9, 0x00D1, 0x00D6, 0x00DC, 0x00E1, 0x00E0, 0x00E2, 0x00E4, 0x00E3, 0x00E5, 0x00E7, 0x00E9, 0x00E8, //
       0x00EA, 0x00EB, 0x00EC, 0x00ED, 0x00EE, 0x00EF, 0x00F1, 0x00F3, 0x00F2, 0x00F4, 0x00F6, 0x00F5, 0x00FA, 0x00F9, 0x00FB, 0x00FC, //
       0x2020, 0x00B0, 0x00A2, 0x00A3, 0x00A7, 0x2022, 0x00B6, 0x00DF, 0x00AE, 0x00A9, 0x2122, 0x00B4, 0x00A8, 0x2260, 0x00C6, 0x00D8, //
-      0x211E, 0x00B1, 0x2264, 0x2265, 0x00A5, 0x00B5, 0x2202, 0x2211, 0x220F, 0x03C0, 0x222B, 0x00AA, 0x00BA, 0x03A9, 0x00E6, 0x00F8, //
+      0x221E, 0x00B1, 0x2264, 0x2265, 0x00A5, 0x00B5, 0x2202, 0x2211, 0x220F, 0x03C0, 0x222B, 0x00AA, 0x00BA, 0x03A9, 0x00E6, 0x00F8, //
       0x00BF, 0x00A1, 0x00AC, 0x221A, 0x0192, 0x2248, 0x2206, 0x00AB, 0x00BB, 0x2026, 0x00A0, 0x00C0, 0x00C3, 0x00D5, 0x0152, 0x0153, //
       0x2013, 0x2014, 0x201C, 0x201D, 0x2018, 0x2019, 0x00F7, 0x25CA, 0x00FF, 0x0178, 0x2044, 0x20AC, 0x2039, 0x203A, 0xFB01, 0xFB02, //
       0x2021, 0x00B7, 0x201A, 0x201E, 0x2030, 0x00C2, 0x00CA, 0x00C1, 0x00CB, 0x00C8, 0x00CD, 0x00CE, 0x00CF, 0x00CC, 0x00D3, 0x00D4, //
@@ -327,7 +327,8 @@ uint8 MacRomanDecoder::encodeCharacter(uint16 unicode)
          return 0x7D;
       case '~':
          return 0x7E;
-      //0x7f is DEL (invisible)
+      case 0x007F:
+         return 0x7F; //DEL (invisible)
       case 0x00C4:
          return 0x80; //Adieresis (Ä)
       case 0x00C5:
-- 
2.43.0


From d67c414ab94798f981695a97c19740f692d5cb16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:26 +0000
Subject: [PATCH 036/152] fix: Charset allocated its alternative names with an
 uninitialised count

---
 src/core/Charset.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/Charset.cpp b/src/core/Charset.cpp
index 1401afd..3833d2b 100644
--- a/src/core/Charset.cpp
+++ b/src/core/Charset.cpp
@@ -112,8 +112,8 @@ Charset::Charset(const String& name, const String* alternatives, uint8 altCount,
                  CharsetDecoder* decoder): Object()
 {
    mName = name;
-   mAlternatives = new String[mAltCount];
    mAltCount = altCount;
+   mAlternatives = new String[mAltCount];
    for(uint8 a = 0; a < mAltCount; a++)mAlternatives[a] = alternatives[a];
    mDecoder = decoder;
 }
-- 
2.43.0


From 32af5bde5a68c0d449a2ac9fc359290b5c2fd3c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:26 +0000
Subject: [PATCH 037/152] fix: Charset::guess took every text for ASCII and
 read beyond short texts

---
 src/core/Charset.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/core/Charset.cpp b/src/core/Charset.cpp
index 3833d2b..25cc85a 100644
--- a/src/core/Charset.cpp
+++ b/src/core/Charset.cpp
@@ -182,15 +182,15 @@ String Charset::guess(const char* stream, int64 length)
 
 
    //UTF-16BE
-   if(stream[0] == static_cast<char>(0xFE) &&
+   if(length >= 2 && stream[0] == static_cast<char>(0xFE) &&
          stream[1] == static_cast<char>(0xFF))return "UTF-16BE";
 
    //UTF-16LE
-   else if(stream[0] == static_cast<char>(0xFF) &&
+   else if(length >= 2 && stream[0] == static_cast<char>(0xFF) &&
            stream[1] == static_cast<char>(0xFE))return "UTF-16LE";
 
    //UTF-8
-   else if(stream[0] == static_cast<char>(0xEF) &&
+   else if(length >= 3 && stream[0] == static_cast<char>(0xEF) &&
            stream[1] == static_cast<char>(0xBB) &&
            stream[2] == static_cast<char>(0xBF))return "UTF-8";
 
@@ -247,7 +247,7 @@ String Charset::guess(const char* stream, int64 length)
    bool isASCII = true;
    for(uint32 a = 0; a < length; a++)
    {
-      if(stream[a] > 0x7F)
+      if((uint8)stream[a] > 0x7F)
       {
          isASCII = false;
          break;
-- 
2.43.0


From 5c876f21f438c57443ad87cc25c230b384637e2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:26 +0000
Subject: [PATCH 038/152] fix: UTF8Decoder read beyond the text at incomplete
 sequences and at FF FE inside the text

---
 src/core/UTF8Decoder.cpp | 74 ++++++++++++++--------------------------
 1 file changed, 26 insertions(+), 48 deletions(-)

diff --git a/src/core/UTF8Decoder.cpp b/src/core/UTF8Decoder.cpp
index a659076..ce81ede 100644
--- a/src/core/UTF8Decoder.cpp
+++ b/src/core/UTF8Decoder.cpp
@@ -38,6 +38,23 @@ UTF8Decoder::UTF8Decoder(): CharsetDecoder()
 
 }
 
+// Number of bytes of the sequence starting at cstring. Bytes that are not part of a complete sequence
+// stand for themselves.
+static uint32 sequenceLength(const char* cstring)
+{
+   uint8 c = cstring[0];
+   uint32 length = 1;
+   if((c & 0xE0) == 0xC0)length = 2;
+   else if((c & 0xF0) == 0xE0)length = 3;
+   else if((c & 0xF8) == 0xF0)length = 4;
+
+   for(uint32 a = 1; a < length; a++)
+   {
+      if((cstring[a] & 0xC0) != 0x80)return 1;
+   }
+   return length;
+}
+
 CharArray UTF8Decoder::decode(const char* cstring)
 {
    //Bestimme Länge
@@ -68,34 +85,8 @@ CharArray UTF8Decoder::decode(const char* cstring)
 
    while(cstring[cntC] != 0)
    {
-      uint8 c = cstring[cntC];
-
-      if((c & 0x80) == 0)     //1 Zeichen
-      {
-         strLength++;
-         cntC++;
-      }
-      else if((c & 0xE0) == 0xC0)     //2 Zeichen
-      {
-         strLength++;
-         cntC += 2;
-      }
-      else if((c & 0xF0) == 0xE0)     //3 Zeichen
-      {
-         strLength++;
-         cntC += 3;
-      }
-      else if((c & 0xF8) == 0xF0)     //4 Zeichen
-      {
-         strLength++;
-         cntC += 4;
-      }
-      else
-      {
-         // In fact an encoding error, but we then take the byte as a single character
-         strLength++;
-         cntC++;
-      }
+      cntC += sequenceLength(cstring + cntC);
+      strLength++;
    }
    cntC = start;
 
@@ -104,49 +95,36 @@ CharArray UTF8Decoder::decode(const char* cstring)
    while(cntV < strLength)
    {
       uint16 c = (uint8)cstring[cntC];
+      uint32 length = sequenceLength(cstring + cntC);
 
-      if((c & 0x80) == 0)     //1 Zeichen
-      {
-         ret.buffer[cntV] = Char(c);
-         cntV++;
-         cntC++;
-      }
-      else if((c & 0xE0) == 0xC0)     //2 Zeichen
+      if(length == 2)     //2 Zeichen
       {
          c = (c & 0x001F) << 6;
          d = cstring[cntC + 1] & 0x3F;
          ret.buffer[cntV] = Char(c | d);
-         cntV++;
-         cntC += 2;
       }
-      else if((c & 0xF0) == 0xE0)     //3 Zeichen
+      else if(length == 3)     //3 Zeichen
       {
          c = (c & 0x000F) << 12;
          d = (cstring[cntC + 1] & 0x3F) << 6;
          e = cstring[cntC + 2] & 0x3F;
          ret.buffer[cntV] = Char(c | d | e);
-         cntV++;
-         cntC += 3;
       }
-      else if((c & 0xF8) == 0xF0)     //4 Zeichen
+      else if(length == 4)     //4 Zeichen
       {
          c = (c & 0x0007) << 18;
          d = (cstring[cntC + 1] & 0x3F) << 12;
          e = (cstring[cntC + 2] & 0x3F) << 6;
          f = cstring[cntC + 3] & 0x3F;
          ret.buffer[cntV] = Char(c | d | e | f);
-         cntV++;
-         cntC += 4;
       }
-      else if(c == 0xFF
-              && ((uint8)cstring[cntC + 1]) == 0xFE)cntC += 2; //Steuerzeichen. erstmal ignorieren http://de.wikipedia.org/wiki/Unicodeblock_Spezielles
       else
       {
-         //Friss Encoding-Fehler
+         // One byte. In case of an encoding error we take the byte as a single character
          ret.buffer[cntV] = Char(c);
-         cntV++;
-         cntC++;
       }
+      cntV++;
+      cntC += length;
    }
    return ret;
 }
-- 
2.43.0


From 65aa49ab0edabd54cf5f40aab4622627b29a57e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:26 +0000
Subject: [PATCH 039/152] fix: characters beyond U+FFFF were not decoded from
 and encoded to four bytes of UTF-8

---
 src/core/UTF8Decoder.cpp | 50 +++++++++++++++++++++++++++++++++-------
 1 file changed, 42 insertions(+), 8 deletions(-)

diff --git a/src/core/UTF8Decoder.cpp b/src/core/UTF8Decoder.cpp
index ce81ede..1d9c545 100644
--- a/src/core/UTF8Decoder.cpp
+++ b/src/core/UTF8Decoder.cpp
@@ -52,6 +52,13 @@ static uint32 sequenceLength(const char* cstring)
    {
       if((cstring[a] & 0xC0) != 0x80)return 1;
    }
+
+   // Four bytes stand for U+10000 to U+10FFFF, these are two characters (surrogates).
+   if(length == 4)
+   {
+      uint32 plane = ((c & 0x07) << 2) | ((cstring[1] & 0x30) >> 4);
+      if(plane < 1 || plane > 16)return 1;
+   }
    return length;
 }
 
@@ -85,13 +92,14 @@ CharArray UTF8Decoder::decode(const char* cstring)
 
    while(cstring[cntC] != 0)
    {
-      cntC += sequenceLength(cstring + cntC);
-      strLength++;
+      uint32 length = sequenceLength(cstring + cntC);
+      strLength += length == 4 ? 2 : 1;
+      cntC += length;
    }
    cntC = start;
 
    CharArray ret = CharArray(strLength);
-   uint16 d, e, f;
+   uint16 d, e;
    while(cntV < strLength)
    {
       uint16 c = (uint8)cstring[cntC];
@@ -112,11 +120,14 @@ CharArray UTF8Decoder::decode(const char* cstring)
       }
       else if(length == 4)     //4 Zeichen
       {
-         c = (c & 0x0007) << 18;
-         d = (cstring[cntC + 1] & 0x3F) << 12;
-         e = (cstring[cntC + 2] & 0x3F) << 6;
-         f = cstring[cntC + 3] & 0x3F;
-         ret.buffer[cntV] = Char(c | d | e | f);
+         uint32 point = (c & 0x0007) << 18;
+         point |= (cstring[cntC + 1] & 0x3F) << 12;
+         point |= (cstring[cntC + 2] & 0x3F) << 6;
+         point |= cstring[cntC + 3] & 0x3F;
+         point -= 0x10000;
+         ret.buffer[cntV] = Char((uint16)(0xD800 | (point >> 10)));
+         cntV++;
+         ret.buffer[cntV] = Char((uint16)(0xDC00 | (point & 0x3FF)));
       }
       else
       {
@@ -129,6 +140,14 @@ CharArray UTF8Decoder::decode(const char* cstring)
    return ret;
 }
 
+// true, if the characters at index and behind it are a surrogate pair
+static bool isPair(const CharArray& string, int64 index)
+{
+   return index + 1 < string.length &&
+          (string.buffer[index].unicode() & 0xFC00) == 0xD800 &&
+          (string.buffer[index + 1].unicode() & 0xFC00) == 0xDC00;
+}
+
 ByteArray UTF8Decoder::encode(const CharArray& string)
 {
    uint32 cntC = 0;
@@ -143,6 +162,11 @@ ByteArray UTF8Decoder::encode(const CharArray& string)
       {
          cntC += 2;
       }
+      else if(isPair(string, a))   //4 Zeichen
+      {
+         cntC += 4;
+         a++;
+      }
       else//3 Zeichen
       {
          cntC += 3;
@@ -165,6 +189,16 @@ ByteArray UTF8Decoder::encode(const CharArray& string)
          cstring[cntC + 1] = (int8)(character & 0x3F) | 0x80;
          cntC += 2;
       }
+      else if(isPair(string, a))   //4 Zeichen
+      {
+         uint32 point = 0x10000 + ((character & 0x3FF) << 10) + (string.buffer[a + 1].unicode() & 0x3FF);
+         cstring[cntC] = (int8)((point >> 18) & 0x07) | 0xF0;
+         cstring[cntC + 1] = (int8)((point >> 12) & 0x3F) | 0x80;
+         cstring[cntC + 2] = (int8)((point >> 6) & 0x3F) | 0x80;
+         cstring[cntC + 3] = (int8)(point & 0x3F) | 0x80;
+         cntC += 4;
+         a++;
+      }
       else//3 Zeichen
       {
          cstring[cntC] = (int8)((character >> 12) & 0x0F) | 0xE0;
-- 
2.43.0


From e4d5f5bcf234e95eaef86cd86b30f68468f52c74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:00 +0000
Subject: [PATCH 040/152] fix: MacRoman decoded i with acute and i with grave
 the wrong way round

---
 src/core/MacRomanDecoder.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/MacRomanDecoder.cpp b/src/core/MacRomanDecoder.cpp
index 0feb3fa..3f61518 100644
--- a/src/core/MacRomanDecoder.cpp
+++ b/src/core/MacRomanDecoder.cpp
@@ -47,7 +47,7 @@ MacRomanDecoder::MacRomanDecoder(): CharsetDecoder()
       0x0060, 0x0061, 0x0062, 0x0063, 0x0064, 0x0065, 0x0066, 0x0067, 0x0068, 0x0069, 0x006A, 0x006B, 0x006C, 0x006D, 0x006E, 0x006F,
       0x0070, 0x0071, 0x0072, 0x0073, 0x0074, 0x0075, 0x0076, 0x0077, 0x0078, 0x0079, 0x007A, 0x007B, 0x007C, 0x007D, 0x007E, 0x007F,
       0x00C4, 0x00C5, 0x00C7, 0x00C9, 0x00D1, 0x00D6, 0x00DC, 0x00E1, 0x00E0, 0x00E2, 0x00E4, 0x00E3, 0x00E5, 0x00E7, 0x00E9, 0x00E8, //
-      0x00EA, 0x00EB, 0x00EC, 0x00ED, 0x00EE, 0x00EF, 0x00F1, 0x00F3, 0x00F2, 0x00F4, 0x00F6, 0x00F5, 0x00FA, 0x00F9, 0x00FB, 0x00FC, //
+      0x00EA, 0x00EB, 0x00ED, 0x00EC, 0x00EE, 0x00EF, 0x00F1, 0x00F3, 0x00F2, 0x00F4, 0x00F6, 0x00F5, 0x00FA, 0x00F9, 0x00FB, 0x00FC, //
       0x2020, 0x00B0, 0x00A2, 0x00A3, 0x00A7, 0x2022, 0x00B6, 0x00DF, 0x00AE, 0x00A9, 0x2122, 0x00B4, 0x00A8, 0x2260, 0x00C6, 0x00D8, //
       0x221E, 0x00B1, 0x2264, 0x2265, 0x00A5, 0x00B5, 0x2202, 0x2211, 0x220F, 0x03C0, 0x222B, 0x00AA, 0x00BA, 0x03A9, 0x00E6, 0x00F8, //
       0x00BF, 0x00A1, 0x00AC, 0x221A, 0x0192, 0x2248, 0x2206, 0x00AB, 0x00BB, 0x2026, 0x00A0, 0x00C0, 0x00C3, 0x00D5, 0x0152, 0x0153, //
-- 
2.43.0


From 99b4d2995862b6db4ff8f21784b7ab7679092213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:12 +0000
Subject: [PATCH 041/152] fix: Base64::decode returned a byte for the padding
 and read beyond unpadded data

---
 src/core/Base64.cpp | 33 ++++++++-------------------------
 1 file changed, 8 insertions(+), 25 deletions(-)

diff --git a/src/core/Base64.cpp b/src/core/Base64.cpp
index 08eccd9..63b6bde 100644
--- a/src/core/Base64.cpp
+++ b/src/core/Base64.cpp
@@ -129,44 +129,27 @@ uint8* Base64::decode(const uint8* data, uint32& length)
 
    uint8* ret = new uint8[lenb64];
    uint32 index = 0;
-   bool brk = false;
-
-   for(int32 i = 0; i < len; i = i + 4)
+   // Decoding ends at the padding, at the end of the data or at the first invalid character.
+   for(int32 i = 0; i + 1 < len; i = i + 4)
    {
       c1 = gBase64rcvt[data[i]];
       c2 = gBase64rcvt[data[i + 1]];
-      c3 = gBase64rcvt[data[i + 2]];
-      c4 = gBase64rcvt[data[i + 3]];
+      c3 = i + 2 < len ? gBase64rcvt[data[i + 2]] : 65;
+      c4 = i + 3 < len ? gBase64rcvt[data[i + 3]] : 65;
 
-      if(c2 >= 65)
-      {
-         c2 = 0;
-         brk = true;
-      }
+      if(c1 >= 64 || c2 >= 64)break;
       b1 = ((c1 << 2) | ((c2 >> 4) & 0x3));
       ret[index++] = b1;
-      if(brk)break;
 
-
-      if(c3 >= 65)
-      {
-         c3 = 0;
-         brk = true;
-      }
+      if(c3 >= 64)break;
       b2 = ((c2 << 4) & 0xf0) | ((c3 >> 2) & 0xf);
       ret[index++] = b2;
-      if(brk)break;
 
-      if(c4 >= 65)
-      {
-         c4 = 0;
-         brk = true;
-      }
+      if(c4 >= 64)break;
       b3 = ((c3 << 6) & 0xc0) | c4;
       ret[index++] = b3;
-      if(brk)break;
-
    }
+
    length = index;
    return ret;
 }
-- 
2.43.0


From 558a8b0a0a49f4ca9acd18e9d197b691afdc4b53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:12 +0000
Subject: [PATCH 042/152] fix: URLDecode swallowed the text at a percent sign
 without two hexadecimal digits

---
 src/core/String.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/core/String.cpp b/src/core/String.cpp
index 6eedeea..5bf10a4 100644
--- a/src/core/String.cpp
+++ b/src/core/String.cpp
@@ -1372,6 +1372,11 @@ double jm::ConvertToDouble(String str)
    return str.toDouble();
 }
 
+static bool isHexDigit(Char c)
+{
+   return (c >= '0' && c <= '9') || (c >= 'A' && c <= 'F') || (c >= 'a' && c <= 'f');
+}
+
 String jm::URLDecode(const String& str)
 {
    //
@@ -1388,6 +1393,12 @@ String jm::URLDecode(const String& str)
       switch(str.charAt(a).unicode())
       {
          case '%':
+            // A percent sign without two hexadecimal digits stands for itself.
+            if(a + 2 >= str.size() || !isHexDigit(str.charAt(a + 1)) || !isHexDigit(str.charAt(a + 2)))
+            {
+               buffer[pos++] = '%';
+               break;
+            }
             c = Integer::fromHex(str.substring(a + 1, a + 3));
             a += 2;
             buffer[pos++] = c;
-- 
2.43.0


From 95955927ae554a0ab92689a7963eb7718a31674f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:12 +0000
Subject: [PATCH 043/152] fix: URLEncode left characters beyond ASCII
 unescaped, which URLDecode could not read back

---
 src/core/String.cpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/core/String.cpp b/src/core/String.cpp
index 5bf10a4..9f95996 100644
--- a/src/core/String.cpp
+++ b/src/core/String.cpp
@@ -1424,10 +1424,12 @@ String jm::URLEncode(const String& str)
    // A URL-encoded string contains only ASCII characters...
    //
    String ret;
+   ByteArray bytes = str.toCString();
 
-   for(uint32 a = 0; a < str.size(); a++)
+   for(uint32 a = 0; a < bytes.size(); a++)
    {
-      switch(str.charAt(a).unicode())
+      uint8 c = bytes.get(a);
+      switch(c)
       {
          case ' ':
             ret.append('+');
@@ -1446,7 +1448,13 @@ String jm::URLEncode(const String& str)
             break;
 
          default:
-            ret.append(str.charAt(a));
+            if(c < 0x80)ret.append(Char(c));
+            else
+            {
+               // Non-ASCII characters are represented by their UTF-8 bytes.
+               ret.append('%');
+               ret.append(Integer::toHexString(c));
+            }
             break;
       }
    }
-- 
2.43.0


From a24d23b703deafcbc114f40baeff36debcd1aae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:19 +0000
Subject: [PATCH 044/152] fix: an Inflater made by the default constructor had
 no output buffer

---
 src/core/Inflater.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/Inflater.cpp b/src/core/Inflater.cpp
index 2e4d98b..a7b1d65 100644
--- a/src/core/Inflater.cpp
+++ b/src/core/Inflater.cpp
@@ -47,7 +47,7 @@ Inflater::Inflater(): Object()
    mCompBytes = nullptr;
    mCompLength = 0;
    mCompIndex = 0;
-   mUncompBytes = nullptr;
+   mUncompBytes = new uint8[1024];
    mUncompLength = 1024;
    mUncompIndex = 0;
    mTotalIn = 0;
-- 
2.43.0


From f2e5c4c07c3173b832c5439bb0f6374b92918a4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:19 +0000
Subject: [PATCH 045/152] fix: Inflater read beyond the end of truncated data

---
 src/core/Inflater.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/core/Inflater.cpp b/src/core/Inflater.cpp
index a7b1d65..823dd46 100644
--- a/src/core/Inflater.cpp
+++ b/src/core/Inflater.cpp
@@ -164,6 +164,7 @@ int64 Inflater::GetTotalOut()
 
 uint8 Inflater::nextBit()
 {
+   if(mCompIndex >= mCompLength)throw Exception("Unexpected end of compressed data.");
    uint8 ret = ((0x01 << mBit) & mCompBytes[mCompIndex]) >> mBit;
 
    mBit++;
@@ -187,6 +188,7 @@ void Inflater::skipByteBits()
 uint8 Inflater::nextAlignedUInt8()
 {
    if(mBit != 0)throw Exception("Incorrect bit order for uint8!");
+   if(mCompIndex >= mCompLength)throw Exception("Unexpected end of compressed data.");
    uint8 ret = mCompBytes[mCompIndex++];
    mTotalIn++;
    return ret;
-- 
2.43.0


From ef11d16a51975255c50e3d6ba6223336211ec64d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:19 +0000
Subject: [PATCH 046/152] fix: Inflater copied from the wrong place beyond 32
 KiB in blocks with fixed Huffman codes

---
 src/core/Inflater.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/Inflater.cpp b/src/core/Inflater.cpp
index 823dd46..8f4cb9d 100644
--- a/src/core/Inflater.cpp
+++ b/src/core/Inflater.cpp
@@ -309,7 +309,7 @@ void Inflater::handleCompressedFixHuffman()
          //stream, and copy length bytes from this
          //position to the output stream.
 
-         int64 src = (mUncompIndex - distance) & 32767;
+         int64 src = mUncompIndex - distance;
          if(src < 0)throw Exception("Distance in fix hufmann refer before output stream beginning.");
          for(int64 a = 0; a < length; a++)
          {
-- 
2.43.0


From b04cde80788639d67c9a5e992622f160304f8978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:19 +0000
Subject: [PATCH 047/152] fix: Inflater went on with undefined values instead
 of reporting corrupt data

---
 src/core/Inflater.cpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/core/Inflater.cpp b/src/core/Inflater.cpp
index 8f4cb9d..71f7afc 100644
--- a/src/core/Inflater.cpp
+++ b/src/core/Inflater.cpp
@@ -258,7 +258,7 @@ void Inflater::handleUncompressedBlock()
    uint16 len = nextAlignedUInt16();
    uint16 nlen = nextAlignedUInt16();//Komplement von len
 
-   if((nlen & len) != 0)throw Exception("Length of uncompressed block is corrupted.");
+   if((nlen ^ len) != 0xFFFF)throw Exception("Length of uncompressed block is corrupted.");
 
    for(int32 a = 0; a < len; a++)
    {
@@ -300,6 +300,7 @@ void Inflater::handleCompressedFixHuffman()
          //shown in Paragraph 3.2.5, above.
 
          uint16 code = nextUIntX(5);
+         if(code > 29)throw Exception("Distance code has unexpected value: " + String::valueOf(code));
 
          extrabits = DIST_EXTRA[code];
          uint16 distance = nextUIntXR(extrabits);
@@ -667,6 +668,7 @@ void Inflater::handleCompressedDynamicHuffman()
          //shown in Paragraph 3.2.5, above.
 
          uint16 code = decodeHuffmanSymbol(htdist);
+         if(code > 29)throw Exception("Distance code has unexpected value: " + String::valueOf(code));
 
          extrabits = DIST_EXTRA[code];
          uint16 distance = nextUIntXR(extrabits);
@@ -683,7 +685,7 @@ void Inflater::handleCompressedDynamicHuffman()
             writeUncompressed(mUncompBytes[src + a]);
          }
       }
-      else Exception("Code has unexpected value: " + String::valueOf(value));
+      else throw Exception("Code has unexpected value: " + String::valueOf(value));
 
 
    }
@@ -724,7 +726,7 @@ void Inflater::inflate()
       {
          handleCompressedDynamicHuffman();
       }
-      else new Exception("Error in decompression process. Corrupt Block header");
+      else throw Exception("Error in decompression process. Corrupt Block header");
 
    }
    while(!mLastBlock);
@@ -759,7 +761,7 @@ uint16 Inflater::nextFixedHuffmanCode()
          if(code >= 0x190
                && code <= 0x1FF)  // (9 bit) 1 1001 0000 - 1 1111 1111 ( 400 - 511 | 0x190 - 0x1FF ) -> 144 - 255: -256 =-0x100
             code -= 0x100;
-         else new Exception("Wrong code");
+         else throw Exception("Wrong code");
       }
    }
    return code;
@@ -793,7 +795,7 @@ Inflater::HuffmanTree* Inflater::HuffmanTree::Find(uint16 _code, uint16 bits)
       uint16 target = msk & _code;
       if(target == 0 && this->node0 != nullptr)return this->node0->Find(_code, bits);
       else if(target != 0 && this->node1 != nullptr)return this->node1->Find(_code, bits);
-      else new Exception("Huffman Tree Error");
+      else throw Exception("Huffman Tree Error");
    }
 
    return nullptr;
-- 
2.43.0


From 073358cf62aa2176c38a2a284953024842af86dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:43 +0000
Subject: [PATCH 048/152] fix: Inflater did not accept code length repetitions
 that extend from the literal into the distance table

---
 src/core/Inflater.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/core/Inflater.cpp b/src/core/Inflater.cpp
index 71f7afc..67ba230 100644
--- a/src/core/Inflater.cpp
+++ b/src/core/Inflater.cpp
@@ -623,11 +623,15 @@ void Inflater::handleCompressedDynamicHuffman()
 
    HuffmanTree* intermediate = createTree(codelengths, codes);
 
+   // Both tables form a single sequence, a repetition may extend from the first into the second.
+   Array<uint16>* all = new Array<uint16>(HLIT + HDIST);
+   readLengthDists(all, intermediate, HLIT + HDIST);
+
    Array<uint16>* lengths2 = new Array<uint16>(HLIT);
-   readLengthDists(lengths2, intermediate, HLIT);
+   for(int64 a = 0; a < HLIT; a++)(*lengths2)[a] = (*all)[a];
 
    Array<uint16>* distances2 = new Array<uint16>(HDIST);
-   readLengthDists(distances2, intermediate, HDIST);
+   for(int64 a = 0; a < HDIST; a++)(*distances2)[a] = (*all)[HLIT + a];
 
    Array<uint16>* lengthcodes2 = huffmanCodes(lengths2);
 
@@ -692,6 +696,7 @@ void Inflater::handleCompressedDynamicHuffman()
 
    delete codelengths;
    delete codes;
+   delete all;
    delete lengths2;
    delete distances2;
    delete lengthcodes2;
-- 
2.43.0


From fa20e09ea37bcd976d054ee55d5a4ea028a01c75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:43 +0000
Subject: [PATCH 049/152] fix: Inflater accessed an empty list of nodes at a
 block without distance codes

---
 src/core/Inflater.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/core/Inflater.cpp b/src/core/Inflater.cpp
index 67ba230..0d6717b 100644
--- a/src/core/Inflater.cpp
+++ b/src/core/Inflater.cpp
@@ -354,6 +354,9 @@ Inflater::HuffmanTree* Inflater::createTree(Array<uint16>* lengths, Array<uint16
       }
    }
 
+   // A block of literals needs no distance code at all
+   if(nodes.empty())return new HuffmanTree();
+
    do
    {
       if(maxBits < 0)throw Exception("Mööp");
-- 
2.43.0


From 761d4510fbef487300ffc76afded715668ddf87d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:43 +0000
Subject: [PATCH 050/152] fix: Inflater relied on the unspecified order of
 evaluation for the block type

---
 src/core/Inflater.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/Inflater.cpp b/src/core/Inflater.cpp
index 0d6717b..c916753 100644
--- a/src/core/Inflater.cpp
+++ b/src/core/Inflater.cpp
@@ -717,7 +717,7 @@ void Inflater::inflate()
    {
       //Blockheader lesen
       int8 bfinal = nextBit();
-      int8 btype = nextBit() + nextBit() * 2;
+      int8 btype = nextUIntXR(2);
       if(bfinal == 1)mLastBlock = true;
 
       //stored with no compression BTYPE = 00
-- 
2.43.0


From 5c7c2469221991825f77a75f0554b1d26c1a6758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:43 +0000
Subject: [PATCH 051/152] fix: Deflater truncated its output when the data
 could not be compressed

---
 src/core/Deflater.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/core/Deflater.cpp b/src/core/Deflater.cpp
index 629650d..cb74832 100644
--- a/src/core/Deflater.cpp
+++ b/src/core/Deflater.cpp
@@ -55,7 +55,9 @@ void Deflater::deflate(uint8*& buffer, int64& length)
 {
    mUncompIndex = 0;
 
-   buffer = new uint8[mUncompLength];
+   // Data that cannot be compressed becomes longer
+   uLong capacity = compressBound((uLong) mUncompLength);
+   buffer = new uint8[capacity];
 
    z_stream defstream;
    defstream.zalloc = Z_NULL;
@@ -64,7 +66,7 @@ void Deflater::deflate(uint8*& buffer, int64& length)
    // setup "a" as the input and "b" as the compressed output
    defstream.avail_in = (uInt) mUncompLength; // size of input, string + terminator
    defstream.next_in = reinterpret_cast<Bytef*>(mUncompBytes);  // input char array
-   defstream.avail_out = (uInt)mUncompLength; // size of output
+   defstream.avail_out = (uInt)capacity; // size of output
    defstream.next_out = reinterpret_cast<Bytef*>(buffer);  // output char array
 
    // the actual compression work.
-- 
2.43.0


From 523dbe4606367d3193ceb09736f19b8e9e418085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:38 +0000
Subject: [PATCH 052/152] fix: Inflater leaked its buffer unless a stream was
 inflated

---
 src/core/Inflater.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/core/Inflater.cpp b/src/core/Inflater.cpp
index c916753..8ae8ddc 100644
--- a/src/core/Inflater.cpp
+++ b/src/core/Inflater.cpp
@@ -66,6 +66,7 @@ Inflater::Inflater(bool wrap): Object()
 
 Inflater::~Inflater()
 {
+   delete[] mUncompBytes;
 }
 
 void Inflater::SetInput(uint8* buffer, int64 length)
@@ -89,6 +90,13 @@ void Inflater::Inflate(uint8*& buffer, int64& length)
 {
    mUncompIndex = 0;
 
+   // The previous buffer belongs to the caller
+   if(mUncompBytes == nullptr)
+   {
+      mUncompBytes = new uint8[1024];
+      mUncompLength = 1024;
+   }
+
    // You are at the beginning of the stream. Read in ZLIB header (RFC1950)
    if(mTotalIn == 0 && mWrap == false)
    {
@@ -128,6 +136,7 @@ void Inflater::Inflate(uint8*& buffer, int64& length)
 
    buffer = mUncompBytes;
    length = mUncompIndex;
+   mUncompBytes = nullptr;
 }
 
 void Inflater::Reset()
@@ -135,7 +144,7 @@ void Inflater::Reset()
    mCompBytes = nullptr;
    mCompLength = 0;
    mCompIndex = 0;
-   mUncompBytes = nullptr;
+   delete[] mUncompBytes;
    mUncompBytes = new uint8[1024];
    mUncompLength = 1024;
    mUncompIndex = 0;
-- 
2.43.0


From 06ccf29bc334450ab162595ba1657d0996f14f8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:48 +0000
Subject: [PATCH 053/152] fix: MemoryStream::write copied bytes beyond the end
 of the buffer

---
 src/core/MemoryStream.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/core/MemoryStream.cpp b/src/core/MemoryStream.cpp
index 16da9d3..770d758 100644
--- a/src/core/MemoryStream.cpp
+++ b/src/core/MemoryStream.cpp
@@ -97,8 +97,10 @@ int64 MemoryStream::position()
 
 int64 MemoryStream::write(const uint8* buffer, int64 length)
 {
-   int64 available = (mPosition + length < mStreamlength) ? length : mStreamlength - mPosition;
-   memcpy(&mStream[mPosition], buffer, length);
+   int64 available = (length < mStreamlength - mPosition) ? length : mStreamlength - mPosition;
+   if(available > 0)memcpy(&mStream[mPosition], buffer, available);
+   else return 0;
+
    mPosition += available;
    if(mPosition > mWritelength) mWritelength = mPosition;
    return available;
-- 
2.43.0


From 9e150409eab8deaf1778a4dc2ee038d1cff10955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:48 +0000
Subject: [PATCH 054/152] fix: MemoryStream::readFully wrote beyond the end of
 a smaller ByteArray, read overflowed for huge lengths

---
 src/core/MemoryStream.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/core/MemoryStream.cpp b/src/core/MemoryStream.cpp
index 770d758..792fc6e 100644
--- a/src/core/MemoryStream.cpp
+++ b/src/core/MemoryStream.cpp
@@ -66,7 +66,7 @@ void MemoryStream::close()
 
 int64 MemoryStream::read(uint8* buffer, int64 length)
 {
-   int64 available = (mPosition + length < mStreamlength) ? length : mStreamlength - mPosition;
+   int64 available = (length < mStreamlength - mPosition) ? length : mStreamlength - mPosition;
    if(available > 0)memcpy(buffer, &mStream[mPosition], available);
    else return 0;
 
@@ -76,6 +76,7 @@ int64 MemoryStream::read(uint8* buffer, int64 length)
 
 int64 MemoryStream::readFully(ByteArray& buffer, int64 length)
 {
+   if(length > buffer.size())length = buffer.size();
    return read((uint8*)buffer.data(), length);
 }
 
-- 
2.43.0


From d167e528beeda22fafd94648500ff210332b2a61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:48 +0000
Subject: [PATCH 055/152] fix: MemoryStream::seek and move accepted negative
 positions and refused the end of the stream

---
 src/core/MemoryStream.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/core/MemoryStream.cpp b/src/core/MemoryStream.cpp
index 792fc6e..d8483d5 100644
--- a/src/core/MemoryStream.cpp
+++ b/src/core/MemoryStream.cpp
@@ -82,13 +82,13 @@ int64 MemoryStream::readFully(ByteArray& buffer, int64 length)
 
 void MemoryStream::seek(int64 newPosition)
 {
-   mPosition = (newPosition < mStreamlength) ? newPosition : mPosition;
+   mPosition = (newPosition >= 0 && newPosition <= mStreamlength) ? newPosition : mPosition;
 }
 
 void MemoryStream::move(int64 offset)
 {
-   int64 newPosition = mPosition + offset;
-   mPosition = (newPosition < mStreamlength) ? newPosition : mPosition;
+   if(offset < -mPosition || offset > mStreamlength - mPosition)return;
+   mPosition += offset;
 }
 
 int64 MemoryStream::position()
-- 
2.43.0


From f372c19470c63acde78681909a62a20894863e08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:40 +0000
Subject: [PATCH 056/152] fix: File::isDirectory, isFile, isLink, isPipe and
 lastModified evaluated an uninitialised stat for missing files

---
 src/core/File.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/core/File.cpp b/src/core/File.cpp
index ded478b..46e8663 100644
--- a/src/core/File.cpp
+++ b/src/core/File.cpp
@@ -249,7 +249,7 @@ bool File::isDirectory() const
    #if defined(__APPLE__) || defined(__linux__) // macOS and Linux are identically
 
    struct stat st;
-   lstat(mCstr.constData(), &st);
+   if(lstat(mCstr.constData(), &st) != 0)return false;
    bool ret = S_ISDIR(st.st_mode);
    return ret;
 
@@ -271,7 +271,7 @@ bool File::isFile() const
    #if defined(__APPLE__) || defined(__linux__) // macOS and Linux are identically
 
    struct stat st;
-   lstat(mCstr.constData(), &st);
+   if(lstat(mCstr.constData(), &st) != 0)return false;
    bool ret = S_ISREG(st.st_mode);
    return ret;
 
@@ -311,7 +311,7 @@ bool File::isLink() const
    #if defined(__APPLE__) || defined(__linux__) // macOS and Linux are identically
 
    struct stat st;
-   lstat(mCstr.constData(), &st);
+   if(lstat(mCstr.constData(), &st) != 0)return false;
    bool ret = S_ISLNK(st.st_mode);
    return ret;
 
@@ -335,7 +335,7 @@ bool File::isPipe() const
    #if defined(__APPLE__) || defined(__linux__) // macOS and Linux are identically
 
    struct stat st;
-   lstat(mCstr.constData(), &st);
+   if(lstat(mCstr.constData(), &st) != 0)return false;
    bool ret = S_ISFIFO(st.st_mode);
    return ret;
 
@@ -357,7 +357,7 @@ Date File::lastModified() const
    #if defined(__APPLE__) //macOS
 
    struct stat st;
-   lstat(mCstr.constData(), &st);
+   if(lstat(mCstr.constData(), &st) != 0)return Date(0);
 
    //Umrechnen
    timespec tm = st.st_mtimespec;
@@ -369,7 +369,7 @@ Date File::lastModified() const
    #elif defined(__linux__) //Linux
 
    struct stat st;
-   lstat(mCstr.constData(), &st);
+   if(lstat(mCstr.constData(), &st) != 0)return Date(0);
 
    //Umrechnen
    timespec tm = st.st_mtim;
-- 
2.43.0


From 308b96c01c8f59436fd7f2a362dfbabfbb664199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:40 +0000
Subject: [PATCH 057/152] fix: File::lastModified added the microseconds as
 milliseconds

---
 src/core/File.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/File.cpp b/src/core/File.cpp
index 46e8663..ac0bff6 100644
--- a/src/core/File.cpp
+++ b/src/core/File.cpp
@@ -362,7 +362,7 @@ Date File::lastModified() const
    //Umrechnen
    timespec tm = st.st_mtimespec;
    int64 time = tm.tv_sec * 1000LL;
-   time += (tm.tv_nsec / 1000LL);
+   time += (tm.tv_nsec / 1000000LL);
 
    return Date(time);
 
@@ -374,7 +374,7 @@ Date File::lastModified() const
    //Umrechnen
    timespec tm = st.st_mtim;
    int64 time = tm.tv_sec * 1000LL;
-   time += (tm.tv_nsec / 1000LL);
+   time += (tm.tv_nsec / 1000000LL);
 
    return Date(time);
 
-- 
2.43.0


From 9f713cf151d22825d77127e4606f1b41b69b9406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:40 +0000
Subject: [PATCH 058/152] fix: File::isHidden threw for a path without name

---
 src/core/File.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/File.cpp b/src/core/File.cpp
index ac0bff6..f9defaf 100644
--- a/src/core/File.cpp
+++ b/src/core/File.cpp
@@ -293,7 +293,7 @@ bool File::isHidden() const
 
    #if defined(__APPLE__) || defined(__linux__) // macOS and Linux are identically
 
-   return name().charAt(0) == '.';
+   return name().startsWith(".");
 
    #elif defined _WIN32//Windows
 
-- 
2.43.0


From bfd47d3ffd3c5de61382816dece88d79008cfa8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:40 +0000
Subject: [PATCH 059/152] fix: File::extension returned the path or parts of
 directory names when the file name has no dot

---
 src/core/File.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/core/File.cpp b/src/core/File.cpp
index f9defaf..f008e45 100644
--- a/src/core/File.cpp
+++ b/src/core/File.cpp
@@ -570,7 +570,10 @@ String File::name() const
 
 String File::extension() const
 {
-   return mPathname.substring(mPathname.lastIndexOf('.') + 1);
+   String filename = name();
+   int64 idx = filename.lastIndexOf('.');
+   if(idx < 0)return kEmptyString;
+   return filename.substring(idx + 1);
 }
 
 bool File::isAbsolute() const
-- 
2.43.0


From db8adcea0555605baa1c1e6a0d15c023463c420f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:40 +0000
Subject: [PATCH 060/152] fix: File::parent of a file in the root directory was
 empty

---
 src/core/File.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/core/File.cpp b/src/core/File.cpp
index f008e45..347138e 100644
--- a/src/core/File.cpp
+++ b/src/core/File.cpp
@@ -560,6 +560,7 @@ String File::parent() const
 {
    int64 idx = mPathname.lastIndexOf(DIR_SEP);
    if(idx < 0)idx = 0;
+   else if(idx == 0 && mPathname.size() > 1)idx = 1; // file in the root directory
    return mPathname.substring(0, idx);
 }
 
-- 
2.43.0


From 50d8f55a07794f95553aaee7f38df0899794e5a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:40 +0000
Subject: [PATCH 061/152] fix: File::isAbsolute returned true for relative
 paths

---
 src/core/File.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/core/File.cpp b/src/core/File.cpp
index 347138e..1d76986 100644
--- a/src/core/File.cpp
+++ b/src/core/File.cpp
@@ -579,7 +579,11 @@ String File::extension() const
 
 bool File::isAbsolute() const
 {
-   return true;
+   #ifdef _WIN32 //Windows
+   return mPathname.startsWith("\\") || mPathname.indexOf(':') == 1;
+   #else
+   return mPathname.startsWith("/");
+   #endif
 }
 
 
-- 
2.43.0


From c646f4c93667db5012b1a37ea0082f5f96071117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:40 +0000
Subject: [PATCH 062/152] fix: File(parent, "/") left a separator at the end of
 the path

---
 src/core/File.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/File.cpp b/src/core/File.cpp
index 1d76986..f96c0cb 100644
--- a/src/core/File.cpp
+++ b/src/core/File.cpp
@@ -50,7 +50,7 @@ File::File(const String& pathname): Stream(), Comparable<File>()
 File::File(String parent, String child): Stream(), Comparable<File>()
 {
    if(child.size() < 1)throw Exception(Tr("Child is empty."));
-   mPathname = resolve(normalize(parent), normalize(child));
+   mPathname = normalize(resolve(normalize(parent), normalize(child)));
    setCString();
    mHandle = nullptr;
 }
@@ -58,7 +58,7 @@ File::File(String parent, String child): Stream(), Comparable<File>()
 File::File(const File& parent, String child): Stream(), Comparable<File>()
 {
    if(child.size() < 1)throw Exception(Tr("Child is empty."));
-   mPathname = resolve(parent.absolutePath(), normalize(child));
+   mPathname = normalize(resolve(parent.absolutePath(), normalize(child)));
    setCString();
    mHandle = nullptr;
 }
-- 
2.43.0


From c446b4d105d59c8d76782847cb2437ede23a99f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:40 +0000
Subject: [PATCH 063/152] fix: File::createNewFile truncated an existing file
 and reported it as new

---
 src/core/File.cpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/core/File.cpp b/src/core/File.cpp
index f96c0cb..7a50408 100644
--- a/src/core/File.cpp
+++ b/src/core/File.cpp
@@ -590,13 +590,15 @@ bool File::isAbsolute() const
 bool File::createNewFile()
 {
    #if defined(__APPLE__) || defined(__linux__)//linux,macOS und ios
-   mHandle = fopen(mCstr.constData(), "wb");
-   bool exist = (mHandle != nullptr);
-   close();
-   return exist;
+   FILE* handle = fopen(mCstr.constData(), "wbx"); // x: fail if the file exists
+   if(handle == nullptr)return false;
+   fclose(handle);
+   return true;
    #elif defined _WIN32 //Windows
-   int64 ret = fopen_s(&mHandle, mCstr.constData(), "wb");
-   close();
+   if(exists())return false;
+   FILE* handle = nullptr;
+   int64 ret = fopen_s(&handle, mCstr.constData(), "wb");
+   if(handle != nullptr)fclose(handle);
    return ret == 0;
    #endif
 }
-- 
2.43.0


From 3626807c335eb240c8f225b759676f9a8a7257b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:40 +0000
Subject: [PATCH 064/152] fix: File::close kept the freed handle when fclose
 reported an error

---
 src/core/File.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/File.cpp b/src/core/File.cpp
index 7a50408..512ee5e 100644
--- a/src/core/File.cpp
+++ b/src/core/File.cpp
@@ -660,8 +660,8 @@ void File::close()
 {
    if(mHandle == nullptr)return;
    int32 eof = fclose(mHandle);
+   mHandle = nullptr; // also gone, if closing reports an error
    if(eof == EOF)throw Exception(Tr("Error while closing file!"));
-   mHandle = nullptr;
 }
 
 void File::seek(int64 position)
-- 
2.43.0


From 4418a7fa4158ebeb7011bd0a83540b75c353ba27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:40 +0000
Subject: [PATCH 065/152] fix: File::open on an open file leaked its handle and
 unwritten data

---
 src/core/File.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/core/File.cpp b/src/core/File.cpp
index 512ee5e..f60de98 100644
--- a/src/core/File.cpp
+++ b/src/core/File.cpp
@@ -605,6 +605,8 @@ bool File::createNewFile()
 
 Status File::open(FileMode mode)
 {
+   close();
+
    #if defined(__APPLE__) || defined(__linux__)//linux,macOS und ios
    switch(mode)
    {
-- 
2.43.0


From b4a0a2fdf0ea548bd2cd2a0d096fe99f12fbd2de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:40 +0000
Subject: [PATCH 066/152] fix: File::open evaluated errno after calls that may
 change it

---
 src/core/File.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/core/File.cpp b/src/core/File.cpp
index f60de98..fbae9de 100644
--- a/src/core/File.cpp
+++ b/src/core/File.cpp
@@ -641,13 +641,14 @@ Status File::open(FileMode mode)
 
    if(mHandle == nullptr)
    {
-      String msg = Tr("Cannot open file! \"%1\" Errno: %2").arg(mPathname).arg(int64(errno));
+      int32 error = errno; // may be changed by the following calls
+      String msg = Tr("Cannot open file! \"%1\" Errno: %2").arg(mPathname).arg(int64(error));
       jm::System::log(msg, jm::LogLevel::kError);
 
-      if(errno == EACCES)return Status::eNotAllowed;
-      if(errno == ENOENT)return  Status::eNotFound;
-      if(errno == ETIMEDOUT)return Status::eTimeout;
-      if(errno == ENOTDIR)return Status::eNoDirectory;
+      if(error == EACCES)return Status::eNotAllowed;
+      if(error == ENOENT)return  Status::eNotFound;
+      if(error == ETIMEDOUT)return Status::eTimeout;
+      if(error == ENOTDIR)return Status::eNoDirectory;
       throw Exception(msg);
    }
    return Status::eOK;
-- 
2.43.0


From 7639323742926f8d5231df00a12197c9261a293c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:40 +0000
Subject: [PATCH 067/152] fix: File::read, write, seek, move and position
 crashed on a file which is not open

---
 src/core/File.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/core/File.cpp b/src/core/File.cpp
index fbae9de..02a249b 100644
--- a/src/core/File.cpp
+++ b/src/core/File.cpp
@@ -669,6 +669,8 @@ void File::close()
 
 void File::seek(int64 position)
 {
+   if(mHandle == nullptr)throw Exception(Tr("Error while moving file reading pointer!"));
+
    //Data type is long int in fseek
    size_t res = fseek(mHandle, (long int)position, SEEK_SET);
    if(res != 0)throw Exception(Tr("Error while moving file reading pointer!"));
@@ -676,6 +678,8 @@ void File::seek(int64 position)
 
 void File::move(int64 offset)
 {
+   if(mHandle == nullptr)throw Exception(Tr("Error while moving file reading pointer!"));
+
    //Data type is long int in fseek
    size_t res = fseek(mHandle, (long int)offset, SEEK_CUR);
    if(res != 0)throw Exception(Tr("Error while moving file reading pointer!"));
@@ -683,12 +687,14 @@ void File::move(int64 offset)
 
 int64 File::position()
 {
+   if(mHandle == nullptr)return 0;
    return int64((uint64)ftell(mHandle));
 }
 
 
 int64 File::read(uint8* buffer, int64 length)
 {
+   if(mHandle == nullptr || length <= 0)return 0;
    return fread(buffer, 1, length, mHandle);
 }
 
@@ -710,6 +716,7 @@ int64 File::readFully(ByteArray& buffer, int64 length)
 
 int64 File::write(const uint8* buffer, int64 length)
 {
+   if(mHandle == nullptr || length <= 0)return 0;
    return fwrite(buffer, 1, length, mHandle);
 }
 
-- 
2.43.0


From 8d8f84741cb45372103e2cc9802dc98577e53b85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:40 +0000
Subject: [PATCH 068/152] fix: File::readFully wrote beyond the end of a
 smaller ByteArray

---
 src/core/File.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/File.cpp b/src/core/File.cpp
index 02a249b..03f0d96 100644
--- a/src/core/File.cpp
+++ b/src/core/File.cpp
@@ -700,7 +700,7 @@ int64 File::read(uint8* buffer, int64 length)
 
 int64 File::readFully(ByteArray& buffer, int64 length)
 {
-   int64 rest = length;
+   int64 rest = (length > buffer.size()) ? buffer.size() : length;
    int64 count = 0;
    int64 step;
    uint8* buf = reinterpret_cast<uint8*>(buffer.data());
-- 
2.43.0


From 1dd48446bca3cd8675fb045523bae86b0adce627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:40 +0000
Subject: [PATCH 069/152] fix: File::renameTo did not normalise the new path

---
 src/core/File.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/File.cpp b/src/core/File.cpp
index 03f0d96..286b75a 100644
--- a/src/core/File.cpp
+++ b/src/core/File.cpp
@@ -435,8 +435,8 @@ bool File::renameTo(const String& newPath)
 
    if(result == 0)
    {
-      mCstr = newname;
-      mPathname = String(mCstr);
+      mPathname = normalize(newPath);
+      setCString();
 
       return true;
    }
-- 
2.43.0


From dc5711dd2c67a482155af8754da9f48b773ae60f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:40 +0000
Subject: [PATCH 070/152] fix: File::listFiles counted and read the directory
 separately, a file created in between lead to an exception

---
 src/core/File.cpp | 22 ++++++----------------
 1 file changed, 6 insertions(+), 16 deletions(-)

diff --git a/src/core/File.cpp b/src/core/File.cpp
index 286b75a..5f96599 100644
--- a/src/core/File.cpp
+++ b/src/core/File.cpp
@@ -464,24 +464,14 @@ Array<File>* File::listFiles()const
       throw Exception(Tr("Cannot open directory"));
    }
 
-   uint32 fileCount = 0;
-
-   //Zähle Einträge
-   while(readdir(dp) != nullptr)fileCount++;
-
-   //Zum Anfang
-   rewinddir(dp);
+   // Read only once, the directory may change meanwhile
+   std::vector<String> files;
+   while((dirp = readdir(dp)) != nullptr)files.push_back(String(dirp->d_name));
+   closedir(dp);
 
    //Array füllen
-   Array<File>* list = new Array<File>(fileCount);
-   uint32 cnt = 0;
-
-   while((dirp = readdir(dp)) != nullptr)
-   {
-      String filename = String(dirp->d_name);
-      list->set(cnt++, File(*this, filename));
-   }
-   closedir(dp);
+   Array<File>* list = new Array<File>((uint32)files.size());
+   for(uint32 a = 0; a < files.size(); a++)list->set(a, File(*this, files[a]));
 
    return list;
 
-- 
2.43.0


From 86b87406108ce313f0c202ca3757bf945b09d588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:40 +0000
Subject: [PATCH 071/152] fix: File::getTags lost tag lists longer than 4096
 bytes, so that addTag overwrote them

---
 src/core/File.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/core/File.cpp b/src/core/File.cpp
index 5f96599..50eff6b 100644
--- a/src/core/File.cpp
+++ b/src/core/File.cpp
@@ -778,14 +778,15 @@ StringList File::getTags()const
 
    #ifdef __linux__
 
-   const int sz = 4096;
-   char buffer[sz];
-   int result = getxattr(mCstr.constData(), "user.xdg.tags", buffer, sz);
+   int64 sz = getxattr(mCstr.constData(), "user.xdg.tags", nullptr, 0);
 
-   if(result > 0)
+   if(sz > 0)
    {
       // Data is stored usually as comma(,) separated list.
-      ByteArray tagList = ByteArray((int8*)buffer, result);
+      ByteArray tagList = ByteArray(sz, 0);
+      int64 result = getxattr(mCstr.constData(), "user.xdg.tags", tagList.data(), sz);
+      if(result != sz)return StringList();
+
       String string(tagList);
       return string.split(',');
    }
-- 
2.43.0


From 1706bd49325abe2646676cf315a69597e459f378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:55 +0000
Subject: [PATCH 072/152] fix: operator>>(istream, String) cut lines after 255
 bytes and set the stream to failed

---
 src/core/String.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/core/String.cpp b/src/core/String.cpp
index 9f95996..d7710ab 100644
--- a/src/core/String.cpp
+++ b/src/core/String.cpp
@@ -1216,9 +1216,9 @@ namespace jm
 
    std::istream& operator>> (std::istream& in, String& str)
    {
-      char cstr[256];
-      in.getline(cstr, 256);
-      str = String(cstr, (uint32)in.gcount());
+      std::string line;
+      std::getline(in, line);
+      str = String(line.data(), (int64)line.size());
       return in;
    }
 
-- 
2.43.0


From dc999d32d286f090195c50f1380011e64af24bb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:55 +0000
Subject: [PATCH 073/152] fix: Resource::operator= never released the stream it
 replaced

---
 src/core/Resource.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/core/Resource.cpp b/src/core/Resource.cpp
index e535b36..fff3f6c 100644
--- a/src/core/Resource.cpp
+++ b/src/core/Resource.cpp
@@ -61,8 +61,9 @@ Resource& Resource::operator=(const Resource& other)
 {
    if(this != &other)
    {
+      if(other.mStream != nullptr)other.mStream->retain();
+      if(mStream != nullptr)mStream->release();
       mStream = other.mStream;
-      if(mStream != nullptr)mStream->retain();
    }
 
    return *this;
-- 
2.43.0


From a3be82ad48ac3f8cfff60f1ad3449edd667e78d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:56 +0000
Subject: [PATCH 074/152] fix: File lost written data when reading directly
 after writing (no positioning in between)

---
 include/core/File.h |  3 +++
 src/core/File.cpp   | 15 +++++++++++++++
 2 files changed, 18 insertions(+)

diff --git a/include/core/File.h b/include/core/File.h
index 896a08d..c0ff53d 100644
--- a/include/core/File.h
+++ b/include/core/File.h
@@ -348,6 +348,9 @@ namespace jm
          //! Filehandle in operating system
          FILE* mHandle;
 
+         //! Last access since opening or positioning: kRead, kWrite or kReadWrite for none.
+         FileMode mLastAccess = FileMode::kReadWrite;
+
          /*!
           \brief This method normalizes the pathname.
           \details On Unix, a normalized pathname does not contain duplicate slashes
diff --git a/src/core/File.cpp b/src/core/File.cpp
index 50eff6b..e0c7ccf 100644
--- a/src/core/File.cpp
+++ b/src/core/File.cpp
@@ -67,6 +67,7 @@ File::File(const File& other): Stream(), Comparable<File>()
 {
    mPathname = other.mPathname;
    mHandle = other.mHandle;
+   mLastAccess = other.mLastAccess;
    if(mPathname.size() > 0)setCString();
    else mCstr = ByteArray();
 }
@@ -82,6 +83,7 @@ File& File::operator=(const File& another)
    {
       mPathname = another.mPathname;
       mHandle = another.mHandle;
+      mLastAccess = another.mLastAccess;
       if(mPathname.size() > 0)setCString();
       else mCstr = ByteArray();
    }
@@ -596,6 +598,7 @@ bool File::createNewFile()
 Status File::open(FileMode mode)
 {
    close();
+   mLastAccess = FileMode::kReadWrite;
 
    #if defined(__APPLE__) || defined(__linux__)//linux,macOS und ios
    switch(mode)
@@ -664,6 +667,7 @@ void File::seek(int64 position)
    //Data type is long int in fseek
    size_t res = fseek(mHandle, (long int)position, SEEK_SET);
    if(res != 0)throw Exception(Tr("Error while moving file reading pointer!"));
+   mLastAccess = FileMode::kReadWrite;
 }
 
 void File::move(int64 offset)
@@ -673,6 +677,7 @@ void File::move(int64 offset)
    //Data type is long int in fseek
    size_t res = fseek(mHandle, (long int)offset, SEEK_CUR);
    if(res != 0)throw Exception(Tr("Error while moving file reading pointer!"));
+   mLastAccess = FileMode::kReadWrite;
 }
 
 int64 File::position()
@@ -685,6 +690,11 @@ int64 File::position()
 int64 File::read(uint8* buffer, int64 length)
 {
    if(mHandle == nullptr || length <= 0)return 0;
+
+   // The C library requires positioning between writing and reading, otherwise data gets lost.
+   if(mLastAccess == FileMode::kWrite)move(0);
+   mLastAccess = FileMode::kRead;
+
    return fread(buffer, 1, length, mHandle);
 }
 
@@ -707,6 +717,11 @@ int64 File::readFully(ByteArray& buffer, int64 length)
 int64 File::write(const uint8* buffer, int64 length)
 {
    if(mHandle == nullptr || length <= 0)return 0;
+
+   // The C library requires positioning between reading and writing, otherwise data gets lost.
+   if(mLastAccess == FileMode::kRead)move(0);
+   mLastAccess = FileMode::kWrite;
+
    return fwrite(buffer, 1, length, mHandle);
 }
 
-- 
2.43.0


From 650703547eab3c1c631eafa6a3cb3e20f03f0b23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:03 +0000
Subject: [PATCH 075/152] fix: ZipFile::open added all entries once more when
 opened again

---
 src/core/ZipFile.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/core/ZipFile.cpp b/src/core/ZipFile.cpp
index 2aa38d1..b809b28 100644
--- a/src/core/ZipFile.cpp
+++ b/src/core/ZipFile.cpp
@@ -55,8 +55,17 @@ ZipFile::~ZipFile()
 
 void ZipFile::open()
 {
-   uint32 length = (uint32)mFile->size();
-   uint32 seek = length - 22;
+   int64 length = mFile->size();
+   int64 seek = length - 22;
+
+   // Remove entries of a previous opening
+   mEntries.rewind();
+   while(mEntries.hasNext())
+   {
+      ZipEntry* entry = static_cast<ZipEntry*>(mEntries.next());
+      entry->release();
+   }
+   mEntries.clear(nullptr);
 
    mFile->open(FileMode::kRead);
 
-- 
2.43.0


From db49ef1c882784e7131b27fe7ceebe7f1760b130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:03 +0000
Subject: [PATCH 076/152] fix: ZipFile::open did not find the directory of
 archives consisting of it only, and took signatures in the comment for it

---
 src/core/ZipFile.cpp | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/core/ZipFile.cpp b/src/core/ZipFile.cpp
index b809b28..fa9cc36 100644
--- a/src/core/ZipFile.cpp
+++ b/src/core/ZipFile.cpp
@@ -80,23 +80,29 @@ void ZipFile::open()
 
    uint32 signature;
    ByteArray eocd = ByteArray(22, 0);
-   bool found = false;
-   do
+   int64 found = -1;
+   for(; seek >= 0; seek--)
    {
       mFile->seek(seek);
       mFile->Stream::readFully(eocd);
       signature = jm::deserializeLEInt32((uint8*)eocd.constData(), 0);
-      seek--;
 
       if(signature == 0x06054b50)
       {
-         found = true;
-         break;
+         // The record ends with the file. Otherwise, it may be a part of the comment.
+         if(found < 0)found = seek;
+         if(seek + 22 + jm::deserializeLEUInt16((uint8*)eocd.constData(), 20) == length)
+         {
+            found = seek;
+            break;
+         }
       }
    }
-   while(seek > 0);
 
-   if(!found)throw jm::Exception(Tr("ZIP-File is invalid."));
+   if(found < 0)throw jm::Exception(Tr("ZIP-File is invalid."));
+
+   mFile->seek(found);
+   mFile->Stream::readFully(eocd);
 
    uint16 recordCount = jm::deserializeLEUInt16((uint8*)eocd.constData(), 10);
    uint32 dictSize = jm::deserializeLEUInt32((uint8*)eocd.constData(), 12);
-- 
2.43.0


From f88852a8d3bd9c40ea24843293dd571060c8c8ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:03 +0000
Subject: [PATCH 077/152] fix: ZipFile::open read beyond the directory of
 damaged archives, and threw for entries without extra field and comment at
 its end

---
 src/core/ZipFile.cpp | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/core/ZipFile.cpp b/src/core/ZipFile.cpp
index fa9cc36..6a02f2a 100644
--- a/src/core/ZipFile.cpp
+++ b/src/core/ZipFile.cpp
@@ -108,15 +108,18 @@ void ZipFile::open()
    uint32 dictSize = jm::deserializeLEUInt32((uint8*)eocd.constData(), 12);
    uint32 dictOffset = jm::deserializeLEUInt32((uint8*)eocd.constData(), 16);
 
+   if((int64)dictOffset + dictSize > length)throw jm::Exception(Tr("ZIP-File is invalid."));
+
    ByteArray dict = ByteArray(dictSize, 0);
    mFile->seek(dictOffset);
-   mFile->Stream::readFully(dict);
+   if(mFile->Stream::readFully(dict) != dict.size())throw jm::Exception(Tr("ZIP-File is invalid."));
 
 
    uint32 index = 0;
    uint32 count = 0;
    while(count < recordCount)
    {
+      if((int64)index + 46 > dict.size())throw jm::Exception(Tr("ZIP-File is invalid."));
       //signature = jm::DeserializeLEInt32(dict, index);
       uint32 compressedSize = jm::deserializeLEUInt32((uint8*)dict.constData(), index + 20);
       uint32 uncompressedSize = jm::deserializeLEUInt32((uint8*)dict.constData(), index + 24);
@@ -125,10 +128,15 @@ void ZipFile::open()
       uint32 commentLength = jm::deserializeLEUInt16((uint8*)dict.constData(), index + 32);
       uint32 offset = jm::deserializeLEUInt32((uint8*)dict.constData(), index + 42);
 
-      jm::String name = jm::String((char*)&dict[index + 46], fileNameLength);
-      jm::String extra = jm::String((char*)&dict[index + 46 + fileNameLength], extraFieldLength);
-      jm::String comment = jm::String((char*)&dict[index + 46 + fileNameLength + extraFieldLength],
-                                      commentLength);
+      if((int64)index + 46 + fileNameLength + extraFieldLength + commentLength > dict.size())
+      {
+         throw jm::Exception(Tr("ZIP-File is invalid."));
+      }
+
+      const char* text = dict.constData() + index + 46;
+      jm::String name = jm::String(text, fileNameLength);
+      jm::String extra = jm::String(text + fileNameLength, extraFieldLength);
+      jm::String comment = jm::String(text + fileNameLength + extraFieldLength, commentLength);
 
       ZipEntry* entry = new ZipEntry(name);
       entry->mExtra = extra;
-- 
2.43.0


From 6f8d30d4ce4cc8c7ac9edd15852c628f31a6e94b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:03 +0000
Subject: [PATCH 078/152] fix: ZipFile::stream accessed memory beyond its
 buffers for damaged entries, unknown compression methods and a missing entry

---
 src/core/ZipFile.cpp | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/src/core/ZipFile.cpp b/src/core/ZipFile.cpp
index 6a02f2a..14157ab 100644
--- a/src/core/ZipFile.cpp
+++ b/src/core/ZipFile.cpp
@@ -190,6 +190,13 @@ uint32 ZipFile::entryCount() const
 
 jm::Stream* ZipFile::stream(const ZipEntry* entry)
 {
+   if(entry == nullptr)return nullptr;
+
+   if((int64)entry->mHeaderOffset + 30 + entry->mCompressedSize > mFile->size())
+   {
+      throw jm::Exception(Tr("ZIP file Error. Entry is incomplete."));
+   }
+
    ByteArray input = ByteArray(entry->mCompressedSize, 0);
 
    //Local Header
@@ -209,23 +216,34 @@ jm::Stream* ZipFile::stream(const ZipEntry* entry)
 
 
    mFile->seek(entry->mHeaderOffset + 30 + fl + el);
-   mFile->Stream::readFully(input);
+   if(mFile->Stream::readFully(input) != input.size())
+   {
+      throw jm::Exception(Tr("ZIP file Error. Entry is incomplete."));
+   }
 
    uint8* buffer = nullptr;
+   int64 control = -1;
    if(cm == 0) //Daten uncompressed
    {
-      buffer = new uint8[entry->mUncompressedSize];
-      memcpy(buffer, input.constData(), entry->mCompressedSize);
+      control = entry->mCompressedSize;
+      buffer = new uint8[control];
+      if(control > 0)memcpy(buffer, input.constData(), control);
    }
    if(cm == 8) //Deflate
    {
       Inflater inf = Inflater(true);
-      int64 control;
       inf.SetInput(reinterpret_cast<uint8*>(input.data()), entry->mCompressedSize);
       // buffer is initialized and set by Inflater
       inf.Inflate(buffer, control);
    }
 
+   // Also for unknown compression methods
+   if(control != entry->mUncompressedSize)
+   {
+      delete[] buffer;
+      throw jm::Exception(Tr("ZIP file Error. Content of entry is invalid."));
+   }
+
    return new MemoryStream(buffer, entry->mUncompressedSize, true);
 }
 
-- 
2.43.0


From c74526ab645bbe734d98140bbdad7e575ed11541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:03 +0000
Subject: [PATCH 079/152] fix: ZipEntry::isDirectory never returned true

---
 src/core/ZipFile.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/ZipFile.cpp b/src/core/ZipFile.cpp
index 14157ab..1984dff 100644
--- a/src/core/ZipFile.cpp
+++ b/src/core/ZipFile.cpp
@@ -278,5 +278,5 @@ uint32 ZipEntry::uncompressedSize()const
 
 bool ZipEntry::isDirectory()const
 {
-   return false;
+   return mName.endsWith("/");
 }
-- 
2.43.0


From 3dfc965853e697351ab4e62600be9fdd35cc4e02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:03 +0000
Subject: [PATCH 080/152] fix: ZipFile::comment was always empty

---
 include/core/ZipFile.h | 3 +++
 src/core/ZipFile.cpp   | 6 +++++-
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/core/ZipFile.h b/include/core/ZipFile.h
index 830d784..c9ac031 100644
--- a/include/core/ZipFile.h
+++ b/include/core/ZipFile.h
@@ -161,6 +161,9 @@ namespace jm
          //! The entries
          LinkedList mEntries;
 
+         //! The comment of the archive
+         String mComment;
+
    };
 
 
diff --git a/src/core/ZipFile.cpp b/src/core/ZipFile.cpp
index 1984dff..71e2632 100644
--- a/src/core/ZipFile.cpp
+++ b/src/core/ZipFile.cpp
@@ -104,6 +104,10 @@ void ZipFile::open()
    mFile->seek(found);
    mFile->Stream::readFully(eocd);
 
+   ByteArray comment = ByteArray(jm::deserializeLEUInt16((uint8*)eocd.constData(), 20), 0);
+   int64 commentSize = mFile->Stream::readFully(comment);
+   mComment = jm::String(comment.constData(), commentSize);
+
    uint16 recordCount = jm::deserializeLEUInt16((uint8*)eocd.constData(), 10);
    uint32 dictSize = jm::deserializeLEUInt32((uint8*)eocd.constData(), 12);
    uint32 dictOffset = jm::deserializeLEUInt32((uint8*)eocd.constData(), 16);
@@ -162,7 +166,7 @@ void ZipFile::close()
 
 jm::String ZipFile::comment()
 {
-   return kEmptyString;
+   return mComment;
 }
 
 ZipEntry* ZipFile::entry(const String& name)
-- 
2.43.0


From b1e823fd284874d1f78883be1837a56af249a97a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:26 +0000
Subject: [PATCH 081/152] fix: ZipOutputFile left the rest of a longer existing
 file behind the archive

---
 src/core/ZipOutputFile.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/ZipOutputFile.cpp b/src/core/ZipOutputFile.cpp
index ca47756..a0c6696 100644
--- a/src/core/ZipOutputFile.cpp
+++ b/src/core/ZipOutputFile.cpp
@@ -61,8 +61,8 @@ ZipOutputFile::ZipOutputFile(File* file): jm::Object(),
 
 void ZipOutputFile::open()
 {
-   if(mFile->exists() == false)mFile->createNewFile();
-   mFile->open(FileMode::kReadWrite);
+   // A longer previous content must not remain behind the directory
+   mFile->open(FileMode::kWrite);
 }
 
 void ZipOutputFile::close()
-- 
2.43.0


From 4550c73568bfe0ed233228459ce178c7a0b376c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:26 +0000
Subject: [PATCH 082/152] fix: ZipOutputFile wrote its temporary file to the
 root directory for a relative path, and over another archive's one

---
 src/core/ZipOutputFile.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/core/ZipOutputFile.cpp b/src/core/ZipOutputFile.cpp
index a0c6696..5624e3a 100644
--- a/src/core/ZipOutputFile.cpp
+++ b/src/core/ZipOutputFile.cpp
@@ -219,8 +219,9 @@ void ZipOutputFile::putNextEntry(ZipEntry* entry)
 
    entry->mDataOffset = static_cast<uint32>(mFile->position());
 
-   mTemp = new jm::File(mFile->parent(), "jmzipdata.tmp");
-   mTemp->createNewFile();
+   // Next to the archive; also for relative path names
+   mTemp = new jm::File(mFile->absolutePath() + ".tmp");
+   mTemp->open(FileMode::kWrite);
    mTemp->open(FileMode::kReadWrite);
 
    mEntries.add(entry, nullptr);
-- 
2.43.0


From 47a9961704fc2afc6bd66aa8658bd444deb2b96e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:09 +0000
Subject: [PATCH 083/152] fix: Inflater leaked its code tables and trees when
 the compressed data turned out to be corrupt

---
 src/core/Inflater.cpp | 53 +++++++++++++++++++++----------------------
 1 file changed, 26 insertions(+), 27 deletions(-)

diff --git a/src/core/Inflater.cpp b/src/core/Inflater.cpp
index 8ae8ddc..80b49fe 100644
--- a/src/core/Inflater.cpp
+++ b/src/core/Inflater.cpp
@@ -346,7 +346,15 @@ Inflater::HuffmanTree* Inflater::createTree(Array<uint16>* lengths, Array<uint16
 
    // Create array with all codes and lengths to generate the tree
    //1. Determine maxBits at the same time
-   std::vector<Inflater::HuffmanTree*> nodes;
+   // A corrupt table ends with an exception, the nodes created so far must be deleted then.
+   struct Nodes: std::vector<Inflater::HuffmanTree*>
+   {
+      ~Nodes()
+      {
+         for(HuffmanTree* node : *this)delete node;
+      }
+   };
+   Nodes nodes;
    int32 maxBits = 0;
    for(int64 a = 0; a < lengths->size(); a++)
    {
@@ -371,7 +379,7 @@ Inflater::HuffmanTree* Inflater::createTree(Array<uint16>* lengths, Array<uint16
       if(maxBits < 0)throw Exception("Mööp");
 
       //2. Take all elements with the highest number of bits
-      std::vector<Inflater::HuffmanTree*> focus;
+      Nodes focus;
       for(uint32 a = 0; a < nodes.size(); a++)
       {
          if(nodes[a]->length == maxBits)
@@ -461,7 +469,9 @@ Inflater::HuffmanTree* Inflater::createTree(Array<uint16>* lengths, Array<uint16
    }
    while(nodes.size() > 1);
 
-   return nodes[0];
+   HuffmanTree* root = nodes[0];
+   nodes.clear();
+   return root;
 }
 
 
@@ -620,7 +630,7 @@ void Inflater::handleCompressedDynamicHuffman()
    const uint16 CODELENTH_ALPHABET[19] = {16, 17, 18, 0, 8, 7, 9, 6, 10, 5, 11, 4, 12, 3, 13, 2, 14, 1, 15};
 
    //Codelängenarray erzeugen und Nullen
-   Array<uint16>* codelengths = new Array<uint16>(19);
+   std::unique_ptr<Array<uint16>> codelengths(new Array<uint16>(19));
    for(uint32 a = 0; a < codelengths->size(); a++)(*codelengths)[a] = 0;
 
    //Einlesen der definierten Codelängen (3 Bit feste Breite)
@@ -631,36 +641,36 @@ void Inflater::handleCompressedDynamicHuffman()
    }
 
    //Erzeuge aus den Codelängen die HuffmanCodes
-   Array<uint16>* codes = huffmanCodes(codelengths);
+   std::unique_ptr<Array<uint16>> codes(huffmanCodes(codelengths.get()));
 
-   HuffmanTree* intermediate = createTree(codelengths, codes);
+   std::unique_ptr<HuffmanTree> intermediate(createTree(codelengths.get(), codes.get()));
 
    // Both tables form a single sequence, a repetition may extend from the first into the second.
-   Array<uint16>* all = new Array<uint16>(HLIT + HDIST);
-   readLengthDists(all, intermediate, HLIT + HDIST);
+   std::unique_ptr<Array<uint16>> all(new Array<uint16>(HLIT + HDIST));
+   readLengthDists(all.get(), intermediate.get(), HLIT + HDIST);
 
-   Array<uint16>* lengths2 = new Array<uint16>(HLIT);
+   std::unique_ptr<Array<uint16>> lengths2(new Array<uint16>(HLIT));
    for(int64 a = 0; a < HLIT; a++)(*lengths2)[a] = (*all)[a];
 
-   Array<uint16>* distances2 = new Array<uint16>(HDIST);
+   std::unique_ptr<Array<uint16>> distances2(new Array<uint16>(HDIST));
    for(int64 a = 0; a < HDIST; a++)(*distances2)[a] = (*all)[HLIT + a];
 
-   Array<uint16>* lengthcodes2 = huffmanCodes(lengths2);
+   std::unique_ptr<Array<uint16>> lengthcodes2(huffmanCodes(lengths2.get()));
 
-   Array<uint16>* distcodes2 = huffmanCodes(distances2);
+   std::unique_ptr<Array<uint16>> distcodes2(huffmanCodes(distances2.get()));
 
    //Workaround
    MAX_BITS = 15;
 
-   HuffmanTree* htvallen = createTree(lengths2, lengthcodes2);
-   HuffmanTree* htdist = createTree(distances2, distcodes2);
+   std::unique_ptr<HuffmanTree> htvallen(createTree(lengths2.get(), lengthcodes2.get()));
+   std::unique_ptr<HuffmanTree> htdist(createTree(distances2.get(), distcodes2.get()));
 
    bool endOfBlock = false;
    while(!endOfBlock)
    {
       uint16 value ;
 
-      value = decodeHuffmanSymbol(htvallen);
+      value = decodeHuffmanSymbol(htvallen.get());
 
       if(value < 256)
       {
@@ -683,7 +693,7 @@ void Inflater::handleCompressedDynamicHuffman()
          //codes, with possible additional bits as shown in the table
          //shown in Paragraph 3.2.5, above.
 
-         uint16 code = decodeHuffmanSymbol(htdist);
+         uint16 code = decodeHuffmanSymbol(htdist.get());
          if(code > 29)throw Exception("Distance code has unexpected value: " + String::valueOf(code));
 
          extrabits = DIST_EXTRA[code];
@@ -705,17 +715,6 @@ void Inflater::handleCompressedDynamicHuffman()
 
 
    }
-
-   delete codelengths;
-   delete codes;
-   delete all;
-   delete lengths2;
-   delete distances2;
-   delete lengthcodes2;
-   delete distcodes2;
-   delete intermediate;
-   delete htvallen;
-   delete htdist;
 }
 
 
-- 
2.43.0


From 4c5ec3899998067a5b5661bb4672d58309827762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:18 +0000
Subject: [PATCH 084/152] fix: copying SAXAttributes used uninitialised
 pointers

---
 src/core/SAXAttributes.cpp | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/src/core/SAXAttributes.cpp b/src/core/SAXAttributes.cpp
index 6ec6b44..9b0ea70 100644
--- a/src/core/SAXAttributes.cpp
+++ b/src/core/SAXAttributes.cpp
@@ -45,16 +45,10 @@ SAXAttributes::~SAXAttributes()
    delete mValues;
 }
 
-SAXAttributes::SAXAttributes(const SAXAttributes& other)
+SAXAttributes::SAXAttributes(const SAXAttributes& other): Object()
 {
-   mNames->clear();
-   mValues->clear();
-
-   for(uint32 a = 0; a < other.mNames->size(); a++)
-   {
-      mNames->push_back(other.mNames->at(a));
-      mValues->push_back(other.mValues->at(a));
-   }
+   mNames = new std::vector<String>(*other.mNames);
+   mValues = new std::vector<String>(*other.mValues);
 }
 
 SAXAttributes& SAXAttributes::operator=(const SAXAttributes& other)
-- 
2.43.0


From 7865ad4f80fe35461d0ef7fd8082f4d82a2e53b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:18 +0000
Subject: [PATCH 085/152] fix: XMLWriter used an uninitialised indentation when
 startDocument was not called

---
 src/core/XMLWriter.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/core/XMLWriter.cpp b/src/core/XMLWriter.cpp
index 2520426..8433147 100644
--- a/src/core/XMLWriter.cpp
+++ b/src/core/XMLWriter.cpp
@@ -36,7 +36,8 @@ using namespace jm;
 XMLWriter::XMLWriter(jm::Stream* output)
 {
    mOutput = output;
-
+   mIndent = 0;
+   mLastIndent = false;
    mOpenElements = new Stack<ElementInfo>();
 }
 
-- 
2.43.0


From 4879ca8a63b09522e77460c5166f8a9da10b5c6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:18 +0000
Subject: [PATCH 086/152] fix: XMLWriter indented the end tag behind Base64
 data that followed other content

---
 src/core/XMLWriter.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/core/XMLWriter.cpp b/src/core/XMLWriter.cpp
index 8433147..caababe 100644
--- a/src/core/XMLWriter.cpp
+++ b/src/core/XMLWriter.cpp
@@ -187,11 +187,10 @@ void XMLWriter::WriteBase64(uint8* data, int64 length)
    if(mOpenElements->size() > 0 && mOpenElements->top().hasContent == false)
    {
       mOpenElements->topRef()->hasContent = true;
-      mOpenElements->topRef()->hasCharacters = true;
       mOutput->write(">");
    }
 
-
+   if(mOpenElements->size() > 0)mOpenElements->topRef()->hasCharacters = true;
    uint8* encoded = jm::Base64::encode(data, length);
    mOutput->write(encoded, length);
    delete[] encoded;
-- 
2.43.0


From 21ed1dfcdf7758f4b10b05aebddba7e8e291d9d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:22 +0000
Subject: [PATCH 087/152] fix: SAXParser lost &apos; and numeric character
 references and read behind a closing ampersand

---
 src/core/SAXParser.cpp | 76 +++++++++++++++++++++++++-----------------
 1 file changed, 46 insertions(+), 30 deletions(-)

diff --git a/src/core/SAXParser.cpp b/src/core/SAXParser.cpp
index 3e8bcaa..0e95ab2 100644
--- a/src/core/SAXParser.cpp
+++ b/src/core/SAXParser.cpp
@@ -33,6 +33,50 @@
 
 using namespace jm;
 
+// Appends the character of the entity which starts at the given position to the token. The position
+// is moved to the end of the entity.
+static void parseEntity(const String& xml, int64& pos, String& token)
+{
+   String name;
+   pos++;
+   while(pos < xml.size() && xml.charAt(pos) != ';')name.append(xml.charAt(pos++));
+
+   if(name.equals("lt"))token.append('<');
+   else if(name.equals("gt"))token.append('>');
+   else if(name.equals("amp"))token.append('&');
+   else if(name.equals("quot"))token.append('"');
+   else if(name.equals("apos"))token.append('\'');
+   else if(name.equals("le"))token.append(0x2264); //≤
+   else if(name.equals("ge"))token.append(0x2265); //≥
+   else if(name.equals("leq"))token.append(0x2264); //≤
+   else if(name.equals("geq"))token.append(0x2265); //≥
+   else if(name.size() > 1 && name.charAt(0) == '#')
+   {
+      // Numeric character reference
+      const bool hex = name.charAt(1) == 'x';
+      const int64 base = hex ? 16 : 10;
+      int64 code = 0;
+      for(int64 index = hex ? 2 : 1; index < name.size() && code <= 0x10FFFF; index++)
+      {
+         const uint16 digit = name.charAt(index).unicode();
+         int64 value = -1;
+         if(digit >= '0' && digit <= '9')value = digit - '0';
+         else if(hex && digit >= 'a' && digit <= 'f')value = digit - 'a' + 10;
+         else if(hex && digit >= 'A' && digit <= 'F')value = digit - 'A' + 10;
+         if(value < 0)return;
+         code = code * base + value;
+      }
+      if(code > 0x10FFFF)return;
+      if(code > 0xFFFF)
+      {
+         code -= 0x10000;
+         token.append(Char((uint16)(0xD800 + (code >> 10))));
+         token.append(Char((uint16)(0xDC00 + (code & 0x3FF))));
+      }
+      else if(code > 0)token.append(Char((uint16)code));
+   }
+}
+
 SAXParser::SAXParser(): Object()
 {
 
@@ -139,23 +183,7 @@ void SAXParser::parse(const String& xml)
       }
       else if(c == '&' && inTag == false)
       {
-         String escape;
-         do
-         {
-            pos++;
-            c = xml.charAt(pos);
-            escape.append(c);
-         }
-         while(c != ';' && pos < length - 1);
-
-         if(escape.equals("lt;"))token.append('<');
-         else if(escape.equals("gt;"))token.append('>');
-         else if(escape.equals("amp;"))token.append('&');
-         else if(escape.equals("quot;"))token.append('"');
-         else if(escape.equals("le;"))token.append(0x2264); //≤
-         else if(escape.equals("ge;"))token.append(0x2265); //≥
-         else if(escape.equals("leq;"))token.append(0x2264); //≤
-         else if(escape.equals("geq;"))token.append(0x2265); //≥
+         parseEntity(xml, pos, token);
       }
       else if(c == '>' && inTag == true && inValue == false)
       {
@@ -254,19 +282,7 @@ void SAXParser::parseTagString(const String& xmlline)
       }
       else if(c == '&' && inValue == true)
       {
-         String escape;
-         do
-         {
-            pos++;
-            c = line.charAt(pos);
-            escape.append(c);
-         }
-         while(c != ';' && pos < length - 1);
-
-         if(escape.equals("lt;"))token.append('<');
-         else if(escape.equals("gt;"))token.append('>');
-         else if(escape.equals("amp;"))token.append('&');
-         else if(escape.equals("quot;"))token.append('"');
+         parseEntity(line, pos, token);
       }
       else if((c.isWhitespace() || c == '=' || c == '/') && !inValue)
       {
-- 
2.43.0


From 28d2b83cc718127850d79f7775128f7798e6a0d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:33 +0000
Subject: [PATCH 088/152] fix: SAXParser took comments, CDATA sections,
 processing instructions and the document type for tags

---
 src/core/SAXParser.cpp | 65 +++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 64 insertions(+), 1 deletion(-)

diff --git a/src/core/SAXParser.cpp b/src/core/SAXParser.cpp
index 0e95ab2..bc11501 100644
--- a/src/core/SAXParser.cpp
+++ b/src/core/SAXParser.cpp
@@ -87,6 +87,48 @@ SAXParser::~SAXParser()
 
 }
 
+// Checks, if the markup stands at the given position.
+static bool startsAt(const String& xml, int64 pos, const String& markup)
+{
+   return pos + markup.size() <= xml.size() && xml.substring(pos, pos + markup.size()).equals(markup);
+}
+
+// Returns the position of the end mark, or the length of the text if there is none.
+static int64 findEnd(const String& xml, int64 pos, const String& mark)
+{
+   const int64 end = xml.indexOf(mark, pos);
+   return end < 0 ? xml.size() : end;
+}
+
+// Returns the position behind the document type declaration which starts at the given position.
+static int64 skipDocumentType(const String& xml, int64 pos)
+{
+   int64 depth = 0;
+   Char opener = 0;
+
+   while(pos < xml.size())
+   {
+      const Char c = xml.charAt(pos);
+
+      if(opener != 0)
+      {
+         if(c == opener)opener = 0;
+      }
+      else if(c == '<' && startsAt(xml, pos, "<!--"))pos = findEnd(xml, pos + 4, "-->") + 2;
+      else if(c == '<' && startsAt(xml, pos, "<?"))pos = findEnd(xml, pos + 2, "?>") + 1;
+      else if(c == '\"' || c == '\'')opener = c;
+      else if(c == '<' || c == '[')depth++;
+      else if(c == ']')depth--;
+      else if(c == '>')
+      {
+         depth--;
+         if(depth == 0)return pos + 1;
+      }
+      pos++;
+   }
+   return xml.size();
+}
+
 void SAXParser::parse(File& file)
 {
    if(!file.exists())return;
@@ -124,7 +166,6 @@ void SAXParser::parse(const String& xml)
 
       if(c == '<' && inTag == false && inValue == false) // Found beginning of a tag.
       {
-         inTag = true;
          // Outputs characters: TODO: IgnorableWhitespaces muss hier noch berücksichtigt werden.
          if(token.size() > 0)
          {
@@ -180,6 +221,28 @@ void SAXParser::parse(const String& xml)
          }
 
          token.zero();
+
+         if(startsAt(xml, pos, "<!--"))pos = findEnd(xml, pos + 4, "-->") + 2;
+         else if(startsAt(xml, pos, "<![CDATA["))
+         {
+            const int64 end = findEnd(xml, pos + 9, "]]>");
+            token.append(xml.substring(pos + 9, end));
+            pos = end + 2;
+         }
+         else if(startsAt(xml, pos, "<?"))
+         {
+            const int64 end = findEnd(xml, pos + 2, "?>");
+            int64 target = pos + 2;
+            while(target < end && !xml.charAt(target).isWhitespace())target++;
+            int64 data = target;
+            while(data < end && xml.charAt(data).isWhitespace())data++;
+            const String name = xml.substring(pos + 2, target);
+            // The XML declaration is not a processing instruction
+            if(!name.equals("xml"))processingInstruction(name, xml.substring(data, end));
+            pos = end + 1;
+         }
+         else if(startsAt(xml, pos, "<!"))pos = skipDocumentType(xml, pos) - 1;
+         else inTag = true;
       }
       else if(c == '&' && inTag == false)
       {
-- 
2.43.0


From 1cc91dfbca942f83bae0b798c2f5ca5b0682203e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:01 +0000
Subject: [PATCH 089/152] fix: Preferences changed line breaks and backslashes
 in values, also in translations

---
 src/core/Preferences.cpp | 95 +++++++++++++++++-----------------------
 1 file changed, 39 insertions(+), 56 deletions(-)

diff --git a/src/core/Preferences.cpp b/src/core/Preferences.cpp
index fb03d1a..a7b7a36 100644
--- a/src/core/Preferences.cpp
+++ b/src/core/Preferences.cpp
@@ -33,6 +33,42 @@
 
 using namespace jm;
 
+// Values are stored in one line: line breaks, tabs and the backslash itself are escaped.
+static String escape(const String& value)
+{
+   String result;
+   for(int64 index = 0; index < value.size(); index++)
+   {
+      const Char c = value.charAt(index);
+      if(c == '\\')result << "\\\\";
+      else if(c == '\t')result << "\\t";
+      else if(c == '\n')result << "\\n";
+      else if(c == '\r')result << "\\r";
+      else result << c;
+   }
+   return result;
+}
+
+static String unescape(const String& value)
+{
+   String result;
+   for(int64 index = 0; index < value.size(); index++)
+   {
+      const Char c = value.charAt(index);
+      const Char next = index + 1 < value.size() ? value.charAt(index + 1) : Char();
+      if(c == '\\' && (next == '\\' || next == 't' || next == 'n' || next == 'r'))
+      {
+         if(next == 't')result << '\t';
+         else if(next == 'n')result << '\n';
+         else if(next == 'r')result << '\r';
+         else result << '\\';
+         index++;
+      }
+      else result << c;
+   }
+   return result;
+}
+
 Preferences::Preferences(): Hashtable()
 {
 }
@@ -75,35 +111,7 @@ void Preferences::load(File file)
       if(pos > 0)
       {
          String key = line.substring(0, pos).trim();
-         String value = line.substring(pos + 1).trim();
-
-         //Prüfe auf Zeilenumbruch
-         while((pos = value.indexOf("\\n")) > 0)
-         {
-            value = value.substring(0, pos) + "\n" + value.substring(pos + 2);
-         }
-
-         //Ersetze
-         int64 index = 0;
-         while(index < value.size())
-         {
-            Char c = value.charAt(index);
-
-            if(c == '\\' && index + 1 < value.size())
-            {
-               Char d = value.charAt(index + 1);
-               if(d == 't')
-               {
-                  value.setCharAt(index, '\t');
-                  value.deleteCharAt(index + 1);
-               }
-               if(d == '\\')
-               {
-                  value.deleteCharAt(index + 1);
-               }
-            }
-            index++;
-         }
+         String value = unescape(line.substring(pos + 1).trim());
 
          setValue(key, value);
       }
@@ -136,28 +144,7 @@ void Preferences::save(File file)
       while(keyiter->hasNext())
       {
          String key = *static_cast<String*>(keyiter->next());
-         String val = value(key);
-
-         //Ersetzungen
-         //Ersetze
-         uint32 index = 0;
-         while(index < val.size())
-         {
-            Char c = val.charAt(index);
-
-            if(c == '\\')
-            {
-               val.insert(index + 1, '\\');
-               index++;
-            }
-            else if(c == '\t')
-            {
-               val.setCharAt(index, '\\');
-               val.insert(index + 1, 't');
-               index++;
-            }
-            index++;
-         }
+         const String val = escape(value(key));
 
          //Zeile bilden
          key.append('=');
@@ -193,11 +180,7 @@ bool Preferences::hasValue(const String& key)const
 
 void Preferences::setValue(const String& key, const String& value)
 {
-   String tmp = value;
-   tmp = tmp.replace("\r\n", "\\n");
-   tmp = tmp.replace("\r", "\\n");
-   tmp = tmp.replace("\n", "\\n");
-   String* actual = new String(tmp);
+   String* actual = new String(value);
    String* old = static_cast<String*>(put(key, actual));
    if(old != nullptr)delete old;
 }
-- 
2.43.0


From 7d31ec400c216fd19044d6f1277fb88e5455cd25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:18 +0000
Subject: [PATCH 090/152] fix: Preferences::setValue stored string literals as
 true

---
 include/core/Preferences.h | 7 +++++++
 src/core/Preferences.cpp   | 5 +++++
 2 files changed, 12 insertions(+)

diff --git a/include/core/Preferences.h b/include/core/Preferences.h
index 712cb67..f5f44d6 100644
--- a/include/core/Preferences.h
+++ b/include/core/Preferences.h
@@ -85,6 +85,13 @@ namespace jm
           */
          void setValue(const String& key, const String& value);
 
+         /*!
+          \brief Sets the property. Without this method a string literal would be stored as bool.
+          \param key The property key.
+          \param value The value.
+          */
+         void setValue(const String& key, const char* value);
+
          /*!
           \brief Sets the property. Essentially calls the Put() method of Hashtable, but ensures that strings are used.
           \param key The property key.
diff --git a/src/core/Preferences.cpp b/src/core/Preferences.cpp
index a7b7a36..3b5ef8e 100644
--- a/src/core/Preferences.cpp
+++ b/src/core/Preferences.cpp
@@ -185,6 +185,11 @@ void Preferences::setValue(const String& key, const String& value)
    if(old != nullptr)delete old;
 }
 
+void Preferences::setValue(const String& key, const char* value)
+{
+   setValue(key, String(value));
+}
+
 void Preferences::setValue(const String& key, int64 value)
 {
    setValue(key, String::valueOf(value));
-- 
2.43.0


From 45573db6f6a031dfbe5a665932e2da4d8d10f5b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:23 +0000
Subject: [PATCH 091/152] fix: I18nBundle::appendMo read beyond the end of
 damaged files

---
 src/core/I18nBundle.cpp | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/core/I18nBundle.cpp b/src/core/I18nBundle.cpp
index 5eb4f0b..e8ebc27 100644
--- a/src/core/I18nBundle.cpp
+++ b/src/core/I18nBundle.cpp
@@ -69,8 +69,13 @@ void I18nBundle::appendMo(Stream* file)
       System::log(Tr("Translation file not fully read"), LogLevel::kError);
       return;
    }
-   uint8* buffer = (uint8*)buf.constData();
+   if(length < 20)
+   {
+      System::log(Tr("Translation file is corrupt"), LogLevel::kError);
+      return;
+   }
 
+   uint8* buffer = (uint8*)buf.constData();
    // Process content
    uint32 magic = jm::deserializeLEUInt32(buffer, 0);
    uint32 version = jm::deserializeLEUInt32(buffer, 4);
@@ -99,6 +104,12 @@ void I18nBundle::appendMo(Stream* file)
 
    std::vector<Record>records;
 
+   if((int64)origOffset + 8 * (int64)stringCount > length ||
+         (int64)transOffset + 8 * (int64)stringCount > length)
+   {
+      System::log(Tr("Translation file is corrupt"), LogLevel::kError);
+      return;
+   }
    // Read the string records
    uint32 offset = 0;
    for(uint32 a = 0; a < stringCount; a++)
@@ -111,6 +122,12 @@ void I18nBundle::appendMo(Stream* file)
 
       offset += 8;
 
+      if((int64)rec.origOffset + rec.origLength > length ||
+            (int64)rec.transOffset + rec.transLength > length)
+      {
+         System::log(Tr("Translation file is corrupt"), LogLevel::kError);
+         return;
+      }
       records.push_back(rec);
    }
 
-- 
2.43.0


From 87b764927789774324440b40a3b6296477b8fa65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:31 +0000
Subject: [PATCH 092/152] fix: Date: the weekday of dates before 1970 was
 negative for all but thursdays

---
 src/core/Date.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/Date.cpp b/src/core/Date.cpp
index bcc3622..92776cb 100644
--- a/src/core/Date.cpp
+++ b/src/core/Date.cpp
@@ -233,7 +233,7 @@ int64 Date::dateFromTime(int64 t) const
 int64 Date::weekDay(int64 t) const
 {
    //01.01.1970 = Donnerstag (=4)
-   return (day(t) + 4) % 7;
+   return modFloor(day(t) + 4, 7);
 }
 
 int64 Date::localTimeZoneAdjustment() const
-- 
2.43.0


From a5a7bd0e702dd12de5e72e34e2d32dee95289890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:31 +0000
Subject: [PATCH 093/152] fix: DateFormatter: symbols directly in front of a
 quoted text were printed as part of the text

---
 src/core/DateFormatter.cpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/core/DateFormatter.cpp b/src/core/DateFormatter.cpp
index 8b9173e..b0229cd 100644
--- a/src/core/DateFormatter.cpp
+++ b/src/core/DateFormatter.cpp
@@ -52,7 +52,18 @@ DateFormatter::DateFormatter(const String& pattern): Object()
       if(c == '\'')
       {
          inText = !inText;
-         if(inText)isText = true;
+         if(inText)
+         {
+            //Symbols directly before the text do not belong to the text
+            if(token.size() > 0)
+            {
+               Pattern* tpattern = new Pattern(token);
+               mLast->next = tpattern;
+               mLast = tpattern;
+               token.clear();
+            }
+            isText = true;
+         }
          else if(isText)
          {
             Pattern* tpattern = new Pattern(token, true);
-- 
2.43.0


From 7a3532f502a71850fcd29f4ce893e8e7d4a3721f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:31 +0000
Subject: [PATCH 094/152] fix: DateFormatter: the name of the month september
 was misspelled

---
 src/core/DateFormatter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/DateFormatter.cpp b/src/core/DateFormatter.cpp
index b0229cd..ad7a7ef 100644
--- a/src/core/DateFormatter.cpp
+++ b/src/core/DateFormatter.cpp
@@ -475,7 +475,7 @@ void DateFormatter::Pattern::appendPattern(String& value, const Date& date) cons
                   return;
 
                case Date::SEPTEMBER:
-                  value.append(Tr("Septemper"));
+                  value.append(Tr("September"));
                   return;
 
                case Date::OCTOBER:
-- 
2.43.0


From fe6aed4a290e9357a978a67f8b3bf80e9e2279b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:31 +0000
Subject: [PATCH 095/152] fix: DateFormatter: the documented symbol D (day of
 the year) was printed as letter

---
 src/core/DateFormatter.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/core/DateFormatter.cpp b/src/core/DateFormatter.cpp
index ad7a7ef..9b159aa 100644
--- a/src/core/DateFormatter.cpp
+++ b/src/core/DateFormatter.cpp
@@ -172,6 +172,9 @@ DateFormatter::Pattern::Pattern(const String& value, bool isText)
             type = DateFormatter::PatternType::kDayInMonth;
             break;
 
+         case 'D':
+            type = DateFormatter::PatternType::kDayInYear;
+            break;
          case 'H':
             type = DateFormatter::PatternType::kHourInDay0;
             break;
-- 
2.43.0


From 993787f5bfd38fdafa15398e54ad780914554d28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:58 +0000
Subject: [PATCH 096/152] fix: Math: isLess() and isGreater() held for equal
 numbers above 2^34 and could contradict isEqual() at the tolerance

---
 src/core/Math.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/core/Math.cpp b/src/core/Math.cpp
index 2f0e4a9..f30c3db 100644
--- a/src/core/Math.cpp
+++ b/src/core/Math.cpp
@@ -92,22 +92,22 @@ bool jm::isNotEqual(double v1, double v2)
 
 bool jm::isLess(double v1, double v2)
 {
-   return v1 + RESABS <= v2;
+   return v2 - v1 >= RESABS;
 }
 
 bool jm::isLessEqual(double v1, double v2)
 {
-   return v1 < v2 + RESABS;
+   return v2 - v1 > -RESABS;
 }
 
 bool jm::isGreater(double v1, double v2)
 {
-   return v1 >= v2 + RESABS;
+   return v2 - v1 <= -RESABS;
 }
 
 bool jm::isGreaterEqual(double v1, double v2)
 {
-   return v1 > v2 - RESABS;
+   return v2 - v1 < RESABS;
 }
 
 bool jm::isNaN(double d)
-- 
2.43.0


From 8528fc50d18bf75a66fd2439a4c61b699a9457fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:58 +0000
Subject: [PATCH 097/152] fix: Math: round() rounded the largest number below
 0.5 up and changed odd integers above 2^52

---
 src/core/Math.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/Math.cpp b/src/core/Math.cpp
index f30c3db..08c15f9 100644
--- a/src/core/Math.cpp
+++ b/src/core/Math.cpp
@@ -58,7 +58,7 @@ int64 jm::round(double number)
         return std::ceil(d - 0.5);
     else
         return std::floor(d + 0.5);*/
-   return ((number > 0.0) ? std::floor(number + 0.5) : std::ceil(number - 0.5));
+   return static_cast<int64>(std::round(number));
 }
 
 float jm::roundFrac(float f, int32 digits)
-- 
2.43.0


From bdd4b9449aa4a8aec40d2db9972d86f0187676ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:58 +0000
Subject: [PATCH 098/152] fix: Math: roundFrac() returned garbage if the scaled
 number exceeded 64 bit

---
 src/core/Math.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/core/Math.cpp b/src/core/Math.cpp
index 08c15f9..a3155fd 100644
--- a/src/core/Math.cpp
+++ b/src/core/Math.cpp
@@ -65,8 +65,7 @@ float jm::roundFrac(float f, int32 digits)
 {
    double factor = std::pow(10, digits);
    double value = f * factor;
-   int64 result = round(value);
-   value = static_cast<double>(result);
+   value = std::round(value);
    return static_cast<float>(value / factor);
 }
 
@@ -74,7 +73,7 @@ double jm::roundFrac(double value, int64 digits)
 {
    double factor = std::pow(10, digits);
    double result = value * factor;
-   result = round(result);
+   result = std::round(result);
    return result / factor;
 }
 
-- 
2.43.0


From 6de5bb7498bc7aa285739207c27ec147de8cf75b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:58 +0000
Subject: [PATCH 099/152] fix: Math: swap() of an integer with itself set it to
 0

---
 src/core/Math.cpp | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/core/Math.cpp b/src/core/Math.cpp
index a3155fd..36090f4 100644
--- a/src/core/Math.cpp
+++ b/src/core/Math.cpp
@@ -123,30 +123,30 @@ void jm::swap(double& v1, double& v2)
 
 void jm::swap(int32& v1, int32& v2)
 {
-   v1 = v1 ^ v2;
-   v2 = v2 ^ v1;
-   v1 = v1 ^ v2;
+   int32 tmp = v1;
+   v1 = v2;
+   v2 = tmp;
 }
 
 void jm::swap(uint32& v1, uint32& v2)
 {
-   v1 = v1 ^ v2;
-   v2 = v2 ^ v1;
-   v1 = v1 ^ v2;
+   uint32 tmp = v1;
+   v1 = v2;
+   v2 = tmp;
 }
 
 void jm::swap(uint16& v1, uint16& v2)
 {
-   v1 = v1 ^ v2;
-   v2 = v2 ^ v1;
-   v1 = v1 ^ v2;
+   uint16 tmp = v1;
+   v1 = v2;
+   v2 = tmp;
 }
 
 void jm::swap(uint8& v1, uint8& v2)
 {
-   v1 = v1 ^ v2;
-   v2 = v2 ^ v1;
-   v1 = v1 ^ v2;
+   uint8 tmp = v1;
+   v1 = v2;
+   v2 = tmp;
 }
 
 double jm::random()
-- 
2.43.0


From ce65a806e571ccdc53008a0f14beefa98350eacb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:58 +0000
Subject: [PATCH 100/152] fix: Math: probability() could be fulfilled for a
 probability of 0

---
 src/core/Math.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/Math.cpp b/src/core/Math.cpp
index 36090f4..474d2df 100644
--- a/src/core/Math.cpp
+++ b/src/core/Math.cpp
@@ -174,9 +174,9 @@ int32 jm::random(int32 lower, int32 upper)
 
 bool jm::probability(double percent)
 {
-   int32 value = random(0, 10000);
+   int32 value = random(0, 9999);
    int32 threshold = (int32)(percent * 10000);
-   return value <= threshold;
+   return value < threshold;
 }
 
 float jm::interpolate(float begin, float end, float percent)
-- 
2.43.0


From a6ac5c370f18a0442b701c82727c083c3cec2bff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:00 +0000
Subject: [PATCH 101/152] fix: Matrix: sum and difference refused matrices of
 the same shape that are not square and read beyond others

---
 src/core/Matrix.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/core/Matrix.cpp b/src/core/Matrix.cpp
index eacf59e..fb7ed20 100644
--- a/src/core/Matrix.cpp
+++ b/src/core/Matrix.cpp
@@ -910,8 +910,8 @@ const Matrix jm::operator*(Matrix const& A, Matrix const& B)
 
 const Matrix jm::operator+(Matrix const& A, Matrix const& B)
 {
-   //Die Spaltenanzahl der linken Matrix muss mit der Zeilenanzahl der Rechten Matrix übereinstimmen
-   if(A.n != B.m) throw
+   // Both matrices must have the same number of rows and columns
+   if(A.m != B.m || A.n != B.n) throw
       jm::Exception("Die Matrizen passen nicht zusammen! A: ");   //'+IntToStr(A.m)+'x'+IntToStr(A.n)+' B:'+IntToStr(B.m)+'x'+IntToStr(B.n));
 
    Matrix R = Matrix(A.m, B.n);
@@ -935,8 +935,8 @@ const Matrix jm::operator+(Matrix const& A, Matrix const& B)
 
 const Matrix jm::operator-(Matrix const& A, Matrix const& B)
 {
-   //Die Spaltenanzahl der linken Matrix muss mit der Zeilenanzahl der Rechten Matrix übereinstimmen
-   if(A.n != B.m) throw
+   // Both matrices must have the same number of rows and columns
+   if(A.m != B.m || A.n != B.n) throw
       jm::Exception("Die Matrizen passen nicht zusammen! A: ");   //'+IntToStr(A.m)+'x'+IntToStr(A.n)+' B:'+IntToStr(B.m)+'x'+IntToStr(B.n));
 
    Matrix R = Matrix(A.m, B.n);
-- 
2.43.0


From 9b5bfb912b267b7fb46acd4548580755f1040d29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:00 +0000
Subject: [PATCH 102/152] fix: Matrix: the inversion of a singular matrix
 reported success

---
 src/core/Matrix.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/core/Matrix.cpp b/src/core/Matrix.cpp
index fb7ed20..d8024b1 100644
--- a/src/core/Matrix.cpp
+++ b/src/core/Matrix.cpp
@@ -255,6 +255,7 @@ Status Matrix::inverse()
    {
       if(m == 1)
       {
+         if(data[0] == 0.0)return Status::eError;
          data[0] = 1 / data[0];
 
          return Status::eOK;
@@ -263,6 +264,7 @@ Status Matrix::inverse()
       {
          double determinant;
          det(determinant);
+         if(determinant == 0.0)return Status::eError;
          determinant = 1.0 / determinant;
 
          // Index
@@ -284,6 +286,7 @@ Status Matrix::inverse()
       {
          double determinant;
          det(determinant);
+         if(determinant == 0.0)return Status::eError;
          determinant = 1.0 / determinant;
 
          // Index
@@ -316,6 +319,7 @@ Status Matrix::inverse()
       {
          double determinant;
          det(determinant);
+         if(determinant == 0.0)return Status::eError;
          determinant = 1.0 / determinant;
 
          // Index
-- 
2.43.0


From 9af66ab99e594fe544db9f847b685f03cb52e452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:00 +0000
Subject: [PATCH 103/152] fix: Matrix: the initialisation as transformation
 leaked the old data if the matrix was not 4x4

---
 include/core/Matrix.h | 2 +-
 src/core/Matrix.cpp   | 1 +
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/core/Matrix.h b/include/core/Matrix.h
index 39edc68..a63e832 100644
--- a/include/core/Matrix.h
+++ b/include/core/Matrix.h
@@ -364,7 +364,7 @@ namespace jm
           \brief This field stores the data. In analogy to the OpenGL storage convention, the data
           is stored column by column.
           */
-         double* data;
+         double* data = nullptr;
 
          void init(int64 rows, int64 cols);
    };
diff --git a/src/core/Matrix.cpp b/src/core/Matrix.cpp
index d8024b1..1dc3877 100644
--- a/src/core/Matrix.cpp
+++ b/src/core/Matrix.cpp
@@ -130,6 +130,7 @@ Matrix::~Matrix()
 
 void Matrix::init(int64 rows, int64 cols)
 {
+   if(data != nullptr)delete [] data;
    m = rows;
    n = cols;
    data = new double[m * n];
-- 
2.43.0


From ed3bebd22f41de4ad190d510c33bbe6536eda54a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:00 +0000
Subject: [PATCH 104/152] fix: Vector: dotProduct() read beyond a vector with
 fewer elements

---
 src/core/Vector.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/core/Vector.cpp b/src/core/Vector.cpp
index 329230b..5241047 100644
--- a/src/core/Vector.cpp
+++ b/src/core/Vector.cpp
@@ -94,6 +94,7 @@ void jm::Vector::ones()
 
 double jm::Vector::dotProduct(const Vector& another) const
 {
+   if(m != another.m) throw Exception("Dimensions don't match");
    double prod = 0.0;
    for(int64 a = 0; a < m; a++)
    {
-- 
2.43.0


From ee745471f2d8e1606bb8954442f6a1f7264f9a95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:25 +0000
Subject: [PATCH 105/152] fix: Vertex: angleTo() returned NaN for some parallel
 vectors

---
 src/core/Vertex2.cpp | 3 ++-
 src/core/Vertex3.cpp | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/core/Vertex2.cpp b/src/core/Vertex2.cpp
index 7e3b414..317b555 100644
--- a/src/core/Vertex2.cpp
+++ b/src/core/Vertex2.cpp
@@ -93,7 +93,8 @@ double Vertex2::angleTo(const Vertex2& another) const
 
    // Same sign convention as in SVG
    double sgn = crossProduct(another) > 0 ? 1 : -1;
-   double angle = acos(tmp) * sgn;
+   // Rounding may exceed the domain of acos for parallel vectors
+   double angle = acos(std::max(-1.0, std::min(1.0, tmp))) * sgn;
 
    return angle;
 }
diff --git a/src/core/Vertex3.cpp b/src/core/Vertex3.cpp
index b50d91e..47370bd 100644
--- a/src/core/Vertex3.cpp
+++ b/src/core/Vertex3.cpp
@@ -76,7 +76,8 @@ bool Vertex3::isOrthogonal(const Vertex3& another) const
 double Vertex3::angleTo(const Vertex3& another) const
 {
    double angle = this->dotProduct(another) / (this->abs() * another.abs());
-   return acos(angle);
+   // Rounding may exceed the domain of acos for parallel vectors
+   return acos(std::max(-1.0, std::min(1.0, angle)));
 }
 
 double Vertex3::abs() const
-- 
2.43.0


From 51e9331c7069ab5a9ccf929cc5566016e0ec03a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:25 +0000
Subject: [PATCH 106/152] fix: Geometry: touching circles had no intersection
 or NaN coordinates depending on rounding

---
 src/core/Geometry.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/core/Geometry.cpp b/src/core/Geometry.cpp
index a189d3c..a0ffd83 100644
--- a/src/core/Geometry.cpp
+++ b/src/core/Geometry.cpp
@@ -89,7 +89,7 @@ void jm::intersectionPointsOfCircles(const Vertex2& center1,
    double d = std::sqrt((x2 - x1) * (x2 - x1) + (y2 - y1) * (y2 - y1));
 
    // Check if circles do not intersect
-   if(d > r1 + r2 || d < std::abs(r1 - r2) || (d == 0 && r1 == r2))
+   if(isGreater(d, r1 + r2) || isLess(d, std::abs(r1 - r2)) || (isEqual(d, 0.0) && isEqual(r1, r2)))
    {
       intersection1 = jm::Vertex2(NAN, NAN);
       intersection2 = jm::Vertex2(NAN, NAN);
@@ -97,7 +97,8 @@ void jm::intersectionPointsOfCircles(const Vertex2& center1,
    }
 
    double a = (r1 * r1 - r2 * r2 + d * d) / (2 * d);
-   double h = std::sqrt(r1 * r1 - a * a);
+   // Rounding may exceed the radius if the circles touch each other
+   double h = std::sqrt(std::max(0.0, r1 * r1 - a * a));
 
    double px = x1 + a * (x2 - x1) / d;
    double py = y1 + a * (y2 - y1) / d;
-- 
2.43.0


From 375e261c8339399d94dc52615963ea551ae5be98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:25 +0000
Subject: [PATCH 107/152] fix: Geometry: isPointOnPlane() was false for every
 point with the default tolerance

---
 src/core/Geometry.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/Geometry.cpp b/src/core/Geometry.cpp
index a0ffd83..40bb907 100644
--- a/src/core/Geometry.cpp
+++ b/src/core/Geometry.cpp
@@ -327,7 +327,7 @@ bool jm::isPointOnPlane(const Vertex3& point,
                         double maxDistance)
 {
    double dist = distancePointToPlane(point, position, normal);
-   return isLess(dist, maxDistance);
+   return isLessEqual(dist, maxDistance);
 }
 
 bool jm::isPointOnLine(const Vertex3& point,
-- 
2.43.0


From d034a71b5aa83c7c10d65b80d4c21e80781dd32c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:25 +0000
Subject: [PATCH 108/152] fix: Geometry: closest point and distance of a point
 on the axis of a circle were NaN

---
 src/core/Geometry.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/core/Geometry.cpp b/src/core/Geometry.cpp
index 40bb907..1ab8163 100644
--- a/src/core/Geometry.cpp
+++ b/src/core/Geometry.cpp
@@ -216,7 +216,9 @@ Vertex3 jm::closestPointOnCircle(const Vertex3& point,
    // Calculate the intersection.
 
    const Vertex3 loc = closestPointOnPlane(point, center, normal);
-   const Vertex3 r = loc - center;
+   Vertex3 r = loc - center;
+   // All points of the circle have the same distance to its axis: take any of them
+   if(r.isNull())r = normal.crossProduct(std::abs(normal.x) < std::abs(normal.y) ? Vertex3(1, 0, 0) : Vertex3(0, 1, 0));
    const double lambda = radius / r.abs();
    return center + r * lambda;
 }
-- 
2.43.0


From ccb670010d166ed304beb791da2ca2dc44c382d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:25 +0000
Subject: [PATCH 109/152] fix: Geometry: distance of a point beyond the end of
 a line segment was NaN

---
 src/core/Geometry.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/core/Geometry.cpp b/src/core/Geometry.cpp
index 1ab8163..d80e07b 100644
--- a/src/core/Geometry.cpp
+++ b/src/core/Geometry.cpp
@@ -276,6 +276,11 @@ double jm::distancePointToLine(const Vertex3& point,
    // 3. The magnitude is the distance
 
    Vertex3 loc = closestPointOnLine(point, lineStart, lineEnd, extend);
+   // The perpendicular point is outside the line segment: one of the end points is the closest
+   if(!extend && !loc.isValid())
+   {
+      return std::min(distancePointToPoint(point, lineStart), distancePointToPoint(point, lineEnd));
+   }
    loc = loc - point;
    return loc.abs();
 }
-- 
2.43.0


From febcaf77783ddc6296dc6499fa6e287d93a20e93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:25 +0000
Subject: [PATCH 110/152] fix: Geometry: points of arcs with a start angle
 below -180 degrees were not found

---
 src/core/Geometry.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/core/Geometry.cpp b/src/core/Geometry.cpp
index d80e07b..8d1a5ca 100644
--- a/src/core/Geometry.cpp
+++ b/src/core/Geometry.cpp
@@ -508,6 +508,7 @@ bool CheckAngle(const Vertex2& point,
 
    // Ensure that the start angle is in the range of 0-2PI
    while(isGreaterEqual(start, DBL_PI))start -= DBL_PI;
+   while(isLess(start, 0.0))start += DBL_PI;
 
    // Ensure that the start angle is greater than start, but not multiple times greater
    while(isGreaterEqual(end, DBL_PI))end -= DBL_PI;
-- 
2.43.0


From 2c9a07593889fff5ab6c80d5dd6399ed55ff23a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:25 +0000
Subject: [PATCH 111/152] fix: Geometry: long directions made rays hit arcs and
 ellipses inside or not at all

---
 src/core/Geometry.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/core/Geometry.cpp b/src/core/Geometry.cpp
index 8d1a5ca..03be557 100644
--- a/src/core/Geometry.cpp
+++ b/src/core/Geometry.cpp
@@ -594,7 +594,7 @@ Vertex2 PQCheck(double p,
 }
 
 Vertex2 jm::extensionPointOnArc(const Vertex2& rayorigin,
-                                const Vertex2& direction,
+                                const Vertex2& direction_,
                                 const Vertex2& center,
                                 double radius,
                                 double start,
@@ -612,7 +612,8 @@ Vertex2 jm::extensionPointOnArc(const Vertex2& rayorigin,
    // Circle equation (p.x - c.x)^2 + (p.y-c.y)^2 = r^2
    // Line equation (vector form) o + n * d = p
    // Substituting and solving the quadratic equation using the quadratic formula leads to:
-
+   // The direction is normalised, so that tolerances apply to distances
+   const Vertex2 direction = direction_.normalized();
    double dx2 = direction.x * direction.x;
    double dy2 = direction.y * direction.y;
    double rd2 = radius * radius;
@@ -653,7 +654,8 @@ Vertex2 jm::extensionPointOnEllipse(const Vertex2& rayorigin_,
 
    Vertex2 center = center_;
    center.rotate(-angle);
-   Vertex2 direction = direction_;
+   // The direction is normalised, so that tolerances apply to distances
+   Vertex2 direction = direction_.normalized();
    direction.rotate(-angle);
    Vertex2 rayorigin = rayorigin_;
    rayorigin.rotate(-angle);
-- 
2.43.0


From 4f91d9021a747e64d00d86ee259a9a34b95e74ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:25 +0000
Subject: [PATCH 112/152] fix: Geometry: rays met ellipses at points which are
 not on the ellipse

---
 src/core/Geometry.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/Geometry.cpp b/src/core/Geometry.cpp
index 03be557..0aa8c6e 100644
--- a/src/core/Geometry.cpp
+++ b/src/core/Geometry.cpp
@@ -650,7 +650,7 @@ Vertex2 jm::extensionPointOnEllipse(const Vertex2& rayorigin_,
 
    // First, the ellipse and the vector must be rotated so that the ellipse lies with the main axis
    // on the x-axis.
-   double angle = std::atan2(center_.y, center_.x);
+   double angle = std::atan2(mainAxis.y, mainAxis.x);
 
    Vertex2 center = center_;
    center.rotate(-angle);
@@ -686,7 +686,7 @@ Vertex2 jm::extensionPointOnEllipse(const Vertex2& rayorigin_,
    double div = (direction.x * direction.x / a2) + (direction.y * direction.y / b2);
 
    double p = 2 * ((direction.x * qx / a2) + (direction.y * qy / b2)) / div;
-   double q = ((qx * qx / a2) + (qy * qy / b) - 1.0) / div;
+   double q = ((qx * qx / a2) + (qy * qy / b2) - 1.0) / div;
 
    Vertex2 result = PQCheck(p, q, rayorigin, direction, center, start, end);
    if(result.isValid())result.rotate(angle);
-- 
2.43.0


From 6cad300f5db5b14340548c97b728fb354f1c1210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:25 +0000
Subject: [PATCH 113/152] fix: Geometry: circle through three points on a line
 was reported as valid

---
 src/core/Geometry.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/core/Geometry.cpp b/src/core/Geometry.cpp
index 0aa8c6e..bfa937d 100644
--- a/src/core/Geometry.cpp
+++ b/src/core/Geometry.cpp
@@ -740,6 +740,9 @@ jm::Status jm::circleParameterBy3Points(Vertex2& centre, double& radius,
    status = M13.det(m13);
    if(status != Status::eOK)return status;
 
+   // Points on a line have no common circle
+   if(m11 == 0.0)return Status::eInvalidInput;
+
    double x = 0.5 * m12 / m11;
    double y = -0.5 * m13 / m11;
 
-- 
2.43.0


From 504853f820bdc8fd5731791344f8d3caac7f728d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:25 +0000
Subject: [PATCH 114/152] fix: Matrix: transAngle() mirrored angles above 180
 degrees

---
 src/core/Matrix.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/core/Matrix.cpp b/src/core/Matrix.cpp
index 1dc3877..27e964a 100644
--- a/src/core/Matrix.cpp
+++ b/src/core/Matrix.cpp
@@ -835,7 +835,8 @@ double Matrix::transAngle(double angle) const
    direction -= center;
 
    double newrotation = direction.angleTo(x);
-
+   // The enclosed angle never exceeds 180 degrees
+   if(direction.y < 0.0)newrotation = 2.0 * M_PI - newrotation;
    return newrotation;
 }
 
-- 
2.43.0


From 25cac6315d98ca3373ac5cfee1ff50772856069a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:25 +0000
Subject: [PATCH 115/152] fix: Matrix: rotation from one vector to another was
 no rotation for short vectors and NaN for some parallel ones

---
 src/core/Matrix.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/Matrix.cpp b/src/core/Matrix.cpp
index 27e964a..d06ceef 100644
--- a/src/core/Matrix.cpp
+++ b/src/core/Matrix.cpp
@@ -1124,10 +1124,10 @@ Matrix Matrix::generate3x3RotationMatrix(const jm::Vertex3& u, const jm::Vertex3
    else
    {
       // Calculate the cross product
-      jm::Vertex3 axis = u.crossProduct(v).normalized();
+      jm::Vertex3 axis = u_norm.crossProduct(v_norm).normalized();
 
       // Calculate the sine of the angle
-      double sinTheta = std::sqrt(1 - cosTheta * cosTheta); // sinTheta = sqrt(1 - cosTheta^2)
+      double sinTheta = std::sqrt(std::max(0.0, 1 - cosTheta * cosTheta)); // sinTheta = sqrt(1 - cosTheta^2)
 
       // Construct the rotation matrix using Rodrigues' rotation formula
       jm::Matrix rotationMatrix = jm::Matrix(3, 3);
-- 
2.43.0


From f00f2a31af35a3d888cd08590f322db374d4418a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:29 +0000
Subject: [PATCH 116/152] fix: Vertex3: biggest() returned the smallest
 component if x and y were equal

---
 src/core/Vertex3.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/Vertex3.cpp b/src/core/Vertex3.cpp
index 47370bd..d606d6e 100644
--- a/src/core/Vertex3.cpp
+++ b/src/core/Vertex3.cpp
@@ -166,7 +166,7 @@ Vertex3 Vertex3::scale(const Vertex3& another)const
 
 double Vertex3::biggest() const
 {
-   return (x > y && x > z) ? x : ((y > x && y > z) ? y : z);
+   return std::max(x, std::max(y, z));
 }
 
 /*
-- 
2.43.0


From c5ceccbe21915609936e31fb02472c849eab1ef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:29 +0000
Subject: [PATCH 117/152] fix: Vertex3: rotate() distorted the vector if the
 axis was not normalised

---
 src/core/Vertex3.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/Vertex3.cpp b/src/core/Vertex3.cpp
index d606d6e..58e6904 100644
--- a/src/core/Vertex3.cpp
+++ b/src/core/Vertex3.cpp
@@ -138,7 +138,7 @@ Vertex3 Vertex3::rotatedZ(double angle) const
 
 void Vertex3::rotate(double angle, const Vertex3& axis)
 {
-   Matrix r = Matrix::generate3x3RotationMatrix(angle, axis);
+   Matrix r = Matrix::generate3x3RotationMatrix(angle, axis.normalized());
    Vertex3 n = r * (*this);
    x = n.x;
    y = n.y;
-- 
2.43.0


From 5b93e52a2928a40436a074d909e1092eb3d2de71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:53 +0000
Subject: [PATCH 118/152] fix: Rect::intersect with a disjoint rectangle gives
 the empty rectangle, as intersection does

---
 src/core/Rect.cpp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/core/Rect.cpp b/src/core/Rect.cpp
index 6572133..5fdf889 100644
--- a/src/core/Rect.cpp
+++ b/src/core/Rect.cpp
@@ -160,10 +160,7 @@ jm::Point jm::Rect::rightCenter() const
 
 void jm::Rect::intersect(const jm::Rect& other)
 {
-   setLeft(std::max(left(), other.left()));
-   setTop(std::max(top(), other.top()));
-   mSize.setWidth(std::min(right(), other.right()) - mOrigin.x());
-   mSize.setHeight(std::min(bottom(), other.bottom()) - mOrigin.y());
+   *this = intersection(other);
 }
 
 void jm::Rect::setX(double x)
-- 
2.43.0


From 353887e8899eabc5614d61220026dd333c80c53b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:53 +0000
Subject: [PATCH 119/152] fix: adding extents of 2D points does not spoil the z
 range

---
 src/core/Extents.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/core/Extents.cpp b/src/core/Extents.cpp
index c8f1036..a1b7154 100644
--- a/src/core/Extents.cpp
+++ b/src/core/Extents.cpp
@@ -62,8 +62,13 @@ void Extents::add(const Extents& ext)
 {
    if(!ext.isValid())return;
 
-   add(ext.mPtMin);
-   add(ext.mPtMax);
+   mPtMin.x = std::min(mPtMin.x, ext.mPtMin.x);
+   mPtMin.y = std::min(mPtMin.y, ext.mPtMin.y);
+   mPtMin.z = std::min(mPtMin.z, ext.mPtMin.z);
+
+   mPtMax.x = std::max(mPtMax.x, ext.mPtMax.x);
+   mPtMax.y = std::max(mPtMax.y, ext.mPtMax.y);
+   mPtMax.z = std::max(mPtMax.z, ext.mPtMax.z);
 }
 
 const Vertex3& Extents::minPoint()const
-- 
2.43.0


From d7004298031917ab858e96d8edfe9fb3fbbe675a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:44 +0000
Subject: [PATCH 120/152] fix: Color::toGreyScale uses the documented weights
 and works for bright colours

---
 src/core/Color.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/Color.cpp b/src/core/Color.cpp
index 6dbdcaf..bc1d526 100644
--- a/src/core/Color.cpp
+++ b/src/core/Color.cpp
@@ -127,8 +127,8 @@ void Color::toGreyScale()
          // G = 0.2126 R + 0.7152 G + 0.0722 B.
          float grey = 0.2126f * col.rgb.red +
                       0.7152f * col.rgb.green +
-                      0.0733f * col.rgb.blue;
-         col.g.grey = std::min(static_cast<int8>(255), static_cast<int8>(grey));
+                      0.0722f * col.rgb.blue;
+         col.g.grey = static_cast<uint8>(std::min(255.0f, grey + 0.5f));
          mAlpha = 255;
          break;
       }
-- 
2.43.0


From 3a4010e3645087e8e365a1da96f1248e90c635fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:45 +0000
Subject: [PATCH 121/152] fix: converting a colour to grey or CMYK keeps its
 alpha value, which is colour space independent

---
 src/core/Color.cpp | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/core/Color.cpp b/src/core/Color.cpp
index bc1d526..86959d6 100644
--- a/src/core/Color.cpp
+++ b/src/core/Color.cpp
@@ -129,7 +129,6 @@ void Color::toGreyScale()
                       0.7152f * col.rgb.green +
                       0.0722f * col.rgb.blue;
          col.g.grey = static_cast<uint8>(std::min(255.0f, grey + 0.5f));
-         mAlpha = 255;
          break;
       }
 
@@ -177,7 +176,6 @@ void Color::toCmyk()
          col.cmyk.magenta = static_cast<uint8>(255.0f * m);
          col.cmyk.yellow = static_cast<uint8>(255.0f * y);
          col.cmyk.key = static_cast<uint8>(255.0f * k);
-         mAlpha = 255;
          break;
       }
 
@@ -189,7 +187,6 @@ void Color::toCmyk()
          col.cmyk.magenta = 0;
          col.cmyk.yellow = 0;
          col.cmyk.key = 255 - grey;
-         mAlpha = 255;
          break;
       }
 
-- 
2.43.0


From 1f02ba2e226707589f198d8ebbea241fa305fdd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:45 +0000
Subject: [PATCH 122/152] fix: Color::toCmyk converts black without dividing by
 zero and rounds to the nearest value

---
 src/core/Color.cpp | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/core/Color.cpp b/src/core/Color.cpp
index 86959d6..c45fdc2 100644
--- a/src/core/Color.cpp
+++ b/src/core/Color.cpp
@@ -162,20 +162,22 @@ void Color::toCmyk()
          //The black key (K) colour is calculated from the red (R'), green (G') and blue (B') colours:
          //K = 1-max(R', G', B')
          float k = 1.0f - std::max(r, std::max(g, b));
+         //Black is key only, there is nothing to divide by
+         float w = std::max(1.0f - k, 1.0f / 255.0f);
          //The cyan colour (C) is calculated from the red (R') and black (K) colours:
          //C = (1-R'-K) / (1-K)
-         float c = (1 - r - k) / (1 - k);
+         float c = (1 - r - k) / w;
          //The magenta colour (M) is calculated from the green (G') and black (K) colours:
          //M = (1-G'-K) / (1-K)
-         float m = (1 - g - k) / (1 - k);
+         float m = (1 - g - k) / w;
          //The yellow colour (Y) is calculated from the blue (B') and black (K) colours:
          //Y = (1-B'-K) / (1-K)
-         float y = (1 - b - k) / (1 - k);
+         float y = (1 - b - k) / w;
          mMode = ColorMode::kCmyk;
-         col.cmyk.cyan = static_cast<uint8>(255.0f * c);
-         col.cmyk.magenta = static_cast<uint8>(255.0f * m);
-         col.cmyk.yellow = static_cast<uint8>(255.0f * y);
-         col.cmyk.key = static_cast<uint8>(255.0f * k);
+         col.cmyk.cyan = static_cast<uint8>(255.0f * c + 0.5f);
+         col.cmyk.magenta = static_cast<uint8>(255.0f * m + 0.5f);
+         col.cmyk.yellow = static_cast<uint8>(255.0f * y + 0.5f);
+         col.cmyk.key = static_cast<uint8>(255.0f * k + 0.5f);
          break;
       }
 
-- 
2.43.0


From b238d7d231a31b5b59b356c5d033dee4e896c0f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:45 +0000
Subject: [PATCH 123/152] fix: Color::FromHsv rounds to the nearest component,
 so that it inverts hsvModel

---
 src/core/Color.cpp | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/src/core/Color.cpp b/src/core/Color.cpp
index c45fdc2..3a03d15 100644
--- a/src/core/Color.cpp
+++ b/src/core/Color.cpp
@@ -405,37 +405,37 @@ Color Color::FromHsv(float hue, float saturation, float value, float alpha)
    {
       case 0:
       case 6:
-         c = fromRgb(static_cast<uint8>(value * 255), static_cast<uint8>(t * 255),
-                     static_cast<uint8>(p * 255));
+         c = fromRgb(static_cast<uint8>(value * 255 + 0.5f), static_cast<uint8>(t * 255 + 0.5f),
+                     static_cast<uint8>(p * 255 + 0.5f));
          break;
 
       case 1:
-         c = fromRgb(static_cast<uint8>(q * 255), static_cast<uint8>(value * 255),
-                     static_cast<uint8>(p * 255));
+         c = fromRgb(static_cast<uint8>(q * 255 + 0.5f), static_cast<uint8>(value * 255 + 0.5f),
+                     static_cast<uint8>(p * 255 + 0.5f));
          break;
 
       case 2:
-         c = fromRgb(static_cast<uint8>(p * 255), static_cast<uint8>(value * 255),
-                     static_cast<uint8>(t * 255));
+         c = fromRgb(static_cast<uint8>(p * 255 + 0.5f), static_cast<uint8>(value * 255 + 0.5f),
+                     static_cast<uint8>(t * 255 + 0.5f));
          break;
 
       case 3:
-         c = fromRgb(static_cast<uint8>(p * 255), static_cast<uint8>(q * 255),
-                     static_cast<uint8>(value * 255));
+         c = fromRgb(static_cast<uint8>(p * 255 + 0.5f), static_cast<uint8>(q * 255 + 0.5f),
+                     static_cast<uint8>(value * 255 + 0.5f));
          break;
 
       case 4:
-         c = fromRgb(static_cast<uint8>(t * 255), static_cast<uint8>(p * 255),
-                     static_cast<uint8>(value * 255));
+         c = fromRgb(static_cast<uint8>(t * 255 + 0.5f), static_cast<uint8>(p * 255 + 0.5f),
+                     static_cast<uint8>(value * 255 + 0.5f));
          break;
 
       case 5:
-         c = fromRgb(static_cast<uint8>(value * 255), static_cast<uint8>(p * 255),
-                     static_cast<uint8>(q * 255));
+         c = fromRgb(static_cast<uint8>(value * 255 + 0.5f), static_cast<uint8>(p * 255 + 0.5f),
+                     static_cast<uint8>(q * 255 + 0.5f));
          break;
    }
 
-   c.setAlpha(static_cast<uint8>(alpha * 255));
+   c.setAlpha(static_cast<uint8>(alpha * 255 + 0.5f));
 
    return c;
 }
-- 
2.43.0


From cd305f0f9a8c03e0e18129f6a483e855da1ffbe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:45 +0000
Subject: [PATCH 124/152] fix: blending transparent colours neither divides by
 zero nor leaves the range of a component

---
 src/core/Color.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/core/Color.cpp b/src/core/Color.cpp
index 3a03d15..d811f7f 100644
--- a/src/core/Color.cpp
+++ b/src/core/Color.cpp
@@ -461,11 +461,14 @@ uint8 PorterDuffColour(uint8 colourBackground, uint8 alphaBackground, uint8 colo
    float alphaB = alphaBackground / 255.0f;
    float A = colourForeground / 255.0f;
    float B = colourBackground / 255.0f;
-   float alphaC = PorterDuffAlpha(alphaBackground, alphaForeground) / 255.0f;
+   float alphaC = alphaA + (1 - alphaA) * alphaB;
+
+   // Both colours are completely transparent
+   if(alphaC <= 0.0f)return colourBackground;
 
    float C = (alphaA * A + (1 - alphaA) * alphaB * B) / alphaC;
 
-   return (uint8)(C * 255);
+   return (uint8)(std::min(C, 1.0f) * 255 + 0.5f);
 }
 
 Color jm::blend(Color background, Color foreground, uint8 alpha)
-- 
2.43.0


From 5e3b3b0be955b733e3bc19ce76a6d4986a5a575e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:52 +0000
Subject: [PATCH 125/152] fix: the backtrace names the deleted or added object
 when it leaves a diagonal upwards

---
 src/core/DiffBacktrace.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/core/DiffBacktrace.cpp b/src/core/DiffBacktrace.cpp
index 246c60a..5baedb5 100644
--- a/src/core/DiffBacktrace.cpp
+++ b/src/core/DiffBacktrace.cpp
@@ -177,7 +177,7 @@ DiffBacktrace* DiffBacktrace::backtrace(DiffDiag* diag, int64 i)
             else
             {
                //				ret->last=Backtrace(diag->GetAbove(),i-1);
-               ret->mObj1 = diag->objectV(i);
+               ret->mObj1 = diag->objectU(i);
                diag = diag->above();
                i--;
             }
@@ -187,14 +187,14 @@ DiffBacktrace* DiffBacktrace::backtrace(DiffDiag* diag, int64 i)
             if(diag->offset() == 0)
             {
                //				ret->last =Backtrace(diag->GetAbove(),i-1);
-               ret->mObj1 = diag->objectV(i);
+               ret->mObj1 = diag->objectU(i);
                diag = diag->above();
                i--;
             }
             else if(diag->offset() >= 0)
             {
                //				ret->last =Backtrace(diag->GetAbove(),i-1);
-               ret->mObj1 = diag->objectV(i);
+               ret->mObj1 = diag->objectU(i);
                diag = diag->above();
                i--;
             }
-- 
2.43.0


From 822b0200bf3293d417fed2f1a6618b2436d431d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:52 +0000
Subject: [PATCH 126/152] fix: DiffDistance releases all diagonals

---
 src/core/DiffDiag.cpp     |  4 ++++
 src/core/DiffDistance.cpp | 19 ++++++++++++-------
 2 files changed, 16 insertions(+), 7 deletions(-)

diff --git a/src/core/DiffDiag.cpp b/src/core/DiffDiag.cpp
index 2581474..8786f22 100644
--- a/src/core/DiffDiag.cpp
+++ b/src/core/DiffDiag.cpp
@@ -51,6 +51,10 @@ DiffDiag::~DiffDiag()
 {
    mElements->clear();
    delete mElements;
+
+   // Each diagonal owns the next one outwards, the main diagonal both sides
+   delete mAbove;
+   if(mOffset == 0)delete mBelow;
 }
 
 
diff --git a/src/core/DiffDistance.cpp b/src/core/DiffDistance.cpp
index 1cfd0cb..00e6ca3 100644
--- a/src/core/DiffDistance.cpp
+++ b/src/core/DiffDistance.cpp
@@ -34,6 +34,16 @@
 
 using namespace jm;
 
+// All diagonals are reachable from the main diagonal
+static void deleteDiagonals(DiffDiag*& diagonal)
+{
+   if(diagonal == nullptr)return;
+
+   while(diagonal->offset() != 0)diagonal = diagonal->below();
+   delete diagonal;
+   diagonal = nullptr;
+}
+
 DiffDistance::DiffDistance()
 {
    mRows = 0;
@@ -54,11 +64,7 @@ DiffDistance::~DiffDistance()
 
 void DiffDistance::clear()
 {
-   if(mDiagonal != nullptr)
-   {
-      delete mDiagonal;
-      mDiagonal = nullptr;
-   }
+   deleteDiagonals(mDiagonal);
    u->clear();
    v->clear();
    mDistance = 0;
@@ -93,9 +99,8 @@ DiffBacktrace* DiffDistance::solve()
    // which is the diagonal containing the bottom R.H. element?
    int64 lba = v->size() - u->size();
 
+   deleteDiagonals(mDiagonal);
    DiffDiag* main = new DiffDiag(this, u, v, 0);
-
-
    if(lba >= 0)
    {
       mDiagonal = main;
-- 
2.43.0


From 95ac769f2b89a28e2823117175caede87e2a6ed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:00 +0000
Subject: [PATCH 127/152] fix: the backtrace does not switch left and right
 object of a modification

---
 src/core/DiffBacktrace.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/core/DiffBacktrace.cpp b/src/core/DiffBacktrace.cpp
index 5baedb5..5da160b 100644
--- a/src/core/DiffBacktrace.cpp
+++ b/src/core/DiffBacktrace.cpp
@@ -155,8 +155,9 @@ DiffBacktrace* DiffBacktrace::backtrace(DiffDiag* diag, int64 i)
 
          case DiffOperation::kDiffModified:
             //			ret->last=Backtrace(diag,i-1);
-            ret->mObj1 = diag->objectU(i);
-            ret->mObj2 = diag->objectV(i);
+            // Both sequences are switched in the lower half
+            ret->mObj1 = diag->offset() >= 0 ? diag->objectU(i) : diag->objectV(i);
+            ret->mObj2 = diag->offset() >= 0 ? diag->objectV(i) : diag->objectU(i);
             i--;
             break;
 
-- 
2.43.0


From bafb9d39bc81d801b8efe1da9c3665764fd101c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:09 +0000
Subject: [PATCH 128/152] fix: Matrix::initMirroring accepts normal vectors of
 any length

---
 src/core/Matrix.cpp | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/core/Matrix.cpp b/src/core/Matrix.cpp
index d06ceef..4513f0f 100644
--- a/src/core/Matrix.cpp
+++ b/src/core/Matrix.cpp
@@ -661,13 +661,15 @@ void Matrix::initMirroring(const jm::Vertex3& planePoint, const jm::Vertex3& pla
 
    //Siehe auch https://en.wikipedia.org/wiki/Transformation_matrix
 
-   double a = planeNormal.x;
-   double b = planeNormal.y;
-   double c = planeNormal.z;
-   double d = - planePoint.x * planeNormal.x
-              - planePoint.y * planeNormal.y
-              - planePoint.z * planeNormal.z;
-
+   // The formulas require a normal vector of length 1
+   jm::Vertex3 normal = planeNormal.normalized();
+
+   double a = normal.x;
+   double b = normal.y;
+   double c = normal.z;
+   double d = - planePoint.x * normal.x
+              - planePoint.y * normal.y
+              - planePoint.z * normal.z;
    zeros();
    set(0, 0, 1.0 - 2.0 * a * a);
    set(1, 0, -2.0 * a * b);
-- 
2.43.0


From 49d109892da44a56f5d1083927aa21aaf5898cf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:09 +0000
Subject: [PATCH 129/152] fix: the rotation between nearly opposite vectors is
 not rounded to 180 degrees

---
 src/core/Matrix.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/Matrix.cpp b/src/core/Matrix.cpp
index 4513f0f..c2db03c 100644
--- a/src/core/Matrix.cpp
+++ b/src/core/Matrix.cpp
@@ -1099,8 +1099,8 @@ Matrix Matrix::generate3x3RotationMatrix(const jm::Vertex3& u, const jm::Vertex3
    // Calculate the dot product
    double cosTheta = u_norm.dotProduct(v_norm);
 
-   // Check if the angle is π (cosTheta is -1)
-   if(jm::isEqual(cosTheta, -1.0))
+   // Check if the angle is π. The cosine is too insensitive here: -1 + 5E-7 is an angle of π - 1E-3
+   if(jm::isEqual((u_norm + v_norm).abs(), 0.0))
    {
       // Special case for 180 degree rotation
       // Find an orthogonal vector to u_norm
-- 
2.43.0


From bfe9aa98f7d9f438dacbd4c6f3a0906af6d9cd1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:09 +0000
Subject: [PATCH 130/152] fix: object coordinate systems do not depend on the
 length of the extrusion vector

---
 src/core/Transform.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/core/Transform.cpp b/src/core/Transform.cpp
index 4604b70..bb42cdc 100644
--- a/src/core/Transform.cpp
+++ b/src/core/Transform.cpp
@@ -18,8 +18,11 @@
 
 using namespace jm;
 
-Matrix jm::ocsMatrix(const jm::Vertex3& extrusion)
+Matrix jm::ocsMatrix(const jm::Vertex3& extrusionDirection)
 {
+   // Only the direction counts
+   jm::Vertex3 extrusion = extrusionDirection.normalized();
+
    // Coordinate system axes of WCS
    jm::Vertex3 wy = jm::Vertex3(0.0, 1.0, 0.0);
    jm::Vertex3 wz = jm::Vertex3(0.0, 0.0, 1.0);
-- 
2.43.0


From fc63d0888b5aff036793c23bc32d7644273542bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:57 +0000
Subject: [PATCH 131/152] fix: Nurbs::end() is the end of the curve and has a
 point

---
 src/core/NURBS.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/core/NURBS.cpp b/src/core/NURBS.cpp
index 206a449..886ea7e 100644
--- a/src/core/NURBS.cpp
+++ b/src/core/NURBS.cpp
@@ -81,6 +81,10 @@ double Nurbs::N(uint32 i, uint32 k, double t)
    if(k == 0)
    {
       if(mKnots[i] <= t && t < mKnots[i + 1]) return 1.0;
+
+      // The last interval includes its end, otherwise the curve would have no last point
+      double last = mKnots[mControlCount];
+      if(t == last && mKnots[i] < last && mKnots[i + 1] == last)return 1.0;
       return 0.0;
    }
 
@@ -130,10 +134,9 @@ double Nurbs::start()
 
 double Nurbs::end()
 {
-   if(mKnotCount < 1)return 0;
-   double m = mControlCount - mDegree + 2;
-   if(m < mKnots[mKnotCount - 1])m = mKnots[mKnotCount - 1];
-   return m;
+   // The curve is defined up to the knot, where the basis functions do no longer sum up to 1
+   if(mKnotCount <= mControlCount)return 0;
+   return mKnots[mControlCount];
 }
 
 uint32 Nurbs::controlPointCount()
-- 
2.43.0


From 309fd7a71f4c803dba396e944cbb3229efced063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:11 +0000
Subject: [PATCH 132/152] fix: testEquals() for uint64 does not take a negative
 number for a large one

---
 src/core/Test.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/core/Test.cpp b/src/core/Test.cpp
index 653c7b1..2ac7a44 100644
--- a/src/core/Test.cpp
+++ b/src/core/Test.cpp
@@ -139,7 +139,17 @@ void Test::testEquals(void* actual, void* expected, const String& failmessage)
 
 void Test::testEquals(uint64 actual, int32 expected, const String& failmessage)
 {
-   testEquals(actual, (uint64)expected, failmessage);
+   jm::gTotalTestCount++;
+   jm::gTestCount++;
+
+   // A negative number is not the large number its conversion to uint64 results in.
+   if(expected >= 0 && actual == (uint64)expected) return;
+
+   jm::gTotalErrorCount++;
+   jm::gErrorCount++;
+   String msg;
+   msg << failmessage << " '" << actual << "' '" << expected << "'";
+   System::log(msg, LogLevel::kError);
 }
 
 void Test::testEquals(uint64 actual, uint32 expected, const String& failmessage)
-- 
2.43.0


From 2ab68dfd34987104455daa69eda5086fa19facd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:51 +0000
Subject: [PATCH 133/152] fix: the truth value of a property does not keep
 parts of a former number

---
 src/core/Property.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/core/Property.cpp b/src/core/Property.cpp
index 7412b74..dd000a3 100644
--- a/src/core/Property.cpp
+++ b/src/core/Property.cpp
@@ -197,6 +197,7 @@ double Property::doubleValue() const
 
 Status Property::setBoolValue(bool value)
 {
+   mNumberValue.intValue = 0; // the other bytes take part in comparisons
    mNumberValue.boolValue = value;
    mType = PropertyType::kBoolean;
    return Status::eOK;
-- 
2.43.0


From 486a9f587b2640bcf14cc6be0cea35c2a1f4d019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:58 +0000
Subject: [PATCH 134/152] fix: an assigned variant does not keep its former
 text

---
 include/core/Property.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/core/Property.h b/include/core/Property.h
index 9e6f6c9..7ef622b 100644
--- a/include/core/Property.h
+++ b/include/core/Property.h
@@ -80,7 +80,7 @@ namespace jm
       {
          mType = another.mType;
          mNumberValue = another.mNumberValue;
-         if(mType == PropertyType::kString)mTextValue = another.mTextValue;
+         mTextValue = another.mTextValue;
       };
 
       Variant& operator=(const Variant& another)
@@ -89,7 +89,7 @@ namespace jm
          {
             mType = another.mType;
             mNumberValue = another.mNumberValue;
-            if(mType == PropertyType::kString)mTextValue = another.mTextValue;
+            mTextValue = another.mTextValue;
          }
 
          return *this;
-- 
2.43.0


From ece2a8ee462b9ad7c4e0699546cc8e7c3347dad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:47 +0000
Subject: [PATCH 135/152] fix: the difference of decreasing unsigned numbers is
 negative in a diff

---
 src/core/DiffInfo.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/core/DiffInfo.cpp b/src/core/DiffInfo.cpp
index c1d581c..afe902a 100644
--- a/src/core/DiffInfo.cpp
+++ b/src/core/DiffInfo.cpp
@@ -75,8 +75,10 @@ void DiffInfo::print(DiffOperation operation,
       case DiffOperation::kDiffModified:
          if(obj1 != obj2)
          {
-            std::cout << "  " << label << ": " << obj1 << " -> " << obj2 << " delta: " <<
-                      (obj2 - obj1) << std::endl;
+            std::cout << "  " << label << ": " << obj1 << " -> " << obj2 << " delta: ";
+            if(obj2 < obj1)std::cout << '-' << (obj1 - obj2);
+            else std::cout << (obj2 - obj1);
+            std::cout << std::endl;
          }
          break;
 
-- 
2.43.0


From dd7911976f37fd67a74a25b170ddd9f7519936cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:54 +0000
Subject: [PATCH 136/152] fix: compareFancyTo() compares numbers beyond 32 bits
 by their value

---
 src/core/String.cpp | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/src/core/String.cpp b/src/core/String.cpp
index d7710ab..0f57027 100644
--- a/src/core/String.cpp
+++ b/src/core/String.cpp
@@ -707,11 +707,18 @@ int32 String::compareTo(const String& another) const
 
 }
 
+// A number too large for 64 bits counts as the largest one.
+static uint64 appendDigit(uint64 number, uint64 digit)
+{
+   if(number > (UINT64_MAX - digit) / 10)return UINT64_MAX;
+   return number * 10 + digit;
+}
+
 int32 String::compareFancyTo(const String& another) const
 {
    //Wandle String in 32bit-Zahlen um, wobei Nummernbestandteile direkt umgewandelt werden.
-   uint32 str1[256];
-   uint32 str2[256];
+   uint64 str1[256];
+   uint64 str2[256];
 
    int64 strl1 = std::min(mStrLength, (int64)256);
    int64 strl2 = std::min(another.mStrLength, (int64)256);
@@ -725,12 +732,11 @@ int32 String::compareFancyTo(const String& another) const
    {
       if(mValue[cntin].isDigit())
       {
-         uint32 number = mValue[cntin].digitValue();
+         uint64 number = mValue[cntin].digitValue();
          while(cntin + 1 < strl1 && mValue[cntin + 1].isDigit())
          {
             cntin++;
-            number *= 10;
-            number += mValue[cntin].digitValue();
+            number = appendDigit(number, mValue[cntin].digitValue());
          }
          str1[cntout] = number;
       }
@@ -748,12 +754,11 @@ int32 String::compareFancyTo(const String& another) const
    {
       if(another.mValue[cntin].isDigit())
       {
-         uint32 number = another.mValue[cntin].digitValue();
+         uint64 number = another.mValue[cntin].digitValue();
          while(cntin + 1 < strl2 && another.mValue[cntin + 1].isDigit())
          {
             cntin++;
-            number *= 10;
-            number += another.mValue[cntin].digitValue();
+            number = appendDigit(number, another.mValue[cntin].digitValue());
          }
          str2[cntout] = number;
       }
@@ -770,8 +775,8 @@ int32 String::compareFancyTo(const String& another) const
    uint32 cnt = 0;
    while(cnt < smallest)
    {
-      uint32 c1 = str1[cnt];
-      uint32 c2 = str2[cnt];
+      uint64 c1 = str1[cnt];
+      uint64 c2 = str2[cnt];
       if(c1 < c2)return -1;
       if(c1 > c2)return 1;
       cnt++;
-- 
2.43.0


From 54c0af77b835e6539aeea1b5202d25209db96070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:26 +0000
Subject: [PATCH 137/152] fix: The width of a symbol in a date pattern is not
 cut to 8 bits

---
 include/core/Date.h        | 2 +-
 src/core/DateFormatter.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/core/Date.h b/include/core/Date.h
index 50a28a8..c63e745 100644
--- a/include/core/Date.h
+++ b/include/core/Date.h
@@ -511,7 +511,7 @@ namespace jm
             PatternType type;
 
             //Pattern length
-            uint8 length;
+            int64 length;
 
             //Text (if any)
             String text;
diff --git a/src/core/DateFormatter.cpp b/src/core/DateFormatter.cpp
index 9b159aa..e2545d8 100644
--- a/src/core/DateFormatter.cpp
+++ b/src/core/DateFormatter.cpp
@@ -152,7 +152,7 @@ DateFormatter::Pattern::Pattern(const String& value, bool isText)
    }
    else
    {
-      length = (uint8)value.size();
+      length = value.size();
 
       switch(value.charAt(0).unicode())
       {
-- 
2.43.0


From f2469280afd540ca2ca26a80dec3ed4760f01993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:09 +0000
Subject: [PATCH 138/152] fix: An archive refuses what the ZIP format cannot
 hold

---
 src/core/ZipOutputFile.cpp | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/core/ZipOutputFile.cpp b/src/core/ZipOutputFile.cpp
index 5624e3a..ab7dd84 100644
--- a/src/core/ZipOutputFile.cpp
+++ b/src/core/ZipOutputFile.cpp
@@ -65,8 +65,16 @@ void ZipOutputFile::open()
    mFile->open(FileMode::kWrite);
 }
 
+// The fields of the format have 16 and 32 bits. What does not fit must be refused, because cutting
+// it would produce an archive, which cannot be read back.
+static void CheckLimit(int64 value, int64 limit, const char* message)
+{
+   if(value > limit)throw Exception(String(message));
+}
+
 void ZipOutputFile::close()
 {
+   CheckLimit(mFile->position(), 0xFFFFFFFF, "The archive is too large for the ZIP format.");
    uint32 start = static_cast<uint32>(mFile->position());
 
    //Schreibe Finales Verzeichnis
@@ -128,6 +136,7 @@ void ZipOutputFile::closeEntry()
 {
    ZipEntry* entry = static_cast<ZipEntry*>(mEntries.last());
 
+   CheckLimit(mTemp->position(), 0xFFFFFFFF, "The file is too large for the ZIP format.");
    entry->mUncompressedSize = static_cast<uint32>(mTemp->position());
    mTemp->seek(0);
    ByteArray buffer = ByteArray(entry->mUncompressedSize, 0);
@@ -161,6 +170,7 @@ void ZipOutputFile::writeAndClose(jm::File* file)
 {
    ZipEntry* entry = static_cast<ZipEntry*>(mEntries.last());
 
+   CheckLimit(file->size(), 0xFFFFFFFF, "The file is too large for the ZIP format.");
    entry->mUncompressedSize = static_cast<uint32>(file->size());
    file->open(FileMode::kRead);
    ByteArray buffer = ByteArray(entry->mUncompressedSize, 0);
@@ -194,11 +204,16 @@ void ZipOutputFile::writeAndClose(jm::File* file)
 
 void ZipOutputFile::putNextEntry(ZipEntry* entry)
 {
-   entry->mHeaderOffset = static_cast<uint32>(mFile->position());
-
    ByteArray cname = entry->mName.toCString();
    ByteArray cextra = entry->mExtra.toCString();
 
+   CheckLimit(mEntries.size() + 1, 0xFFFF, "Too many entries for the ZIP format.");
+   CheckLimit(cname.size(), 0xFFFF, "The name of the entry is too long for the ZIP format.");
+   CheckLimit(cextra.size(), 0xFFFF, "The extra field of the entry is too long for the ZIP format.");
+   CheckLimit(entry->mComment.toCString().size(), 0xFFFF, "The comment of the entry is too long for the ZIP format.");
+   CheckLimit(mFile->position(), 0xFFFFFFFF, "The archive is too large for the ZIP format.");
+
+   entry->mHeaderOffset = static_cast<uint32>(mFile->position());
    //Schreibe Local FileHeader
    uint8 lfh[30];
    jm::serializeLEInt32(lfh, 0, 0x04034b50);//Signature
-- 
2.43.0


From 790f7077fe2487d3488e50562540322bfa4a0547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:35 +0000
Subject: [PATCH 139/152] fix: Copying and assigning an object does not copy
 its reference counter

---
 include/core/Object.h | 12 +++++++++++-
 src/core/Object.cpp   | 11 +++++++++++
 2 files changed, 22 insertions(+), 1 deletion(-)

diff --git a/include/core/Object.h b/include/core/Object.h
index cea0532..8b7dbf7 100644
--- a/include/core/Object.h
+++ b/include/core/Object.h
@@ -54,11 +54,21 @@ namespace jm
           */
          Object() noexcept;
 
+         /*!
+          \brief Copy constructor. The copy has an owner of its own, the owners of the other object
+          remain owners of the other object.
+          */
+         Object(const Object& other) noexcept;
+
+         /*!
+          \brief Assignment of an object. The owners of both objects remain the same.
+          */
+         Object& operator=(const Object& other) noexcept;
+
          /*!
           \brief Destructor.
           */
          virtual ~Object() noexcept;
-
          /*!
           \brief Decreases the reference counter and releases the object immediately when the
           reference counter becomes 0.
diff --git a/src/core/Object.cpp b/src/core/Object.cpp
index ea2b55a..eae6eb7 100644
--- a/src/core/Object.cpp
+++ b/src/core/Object.cpp
@@ -41,6 +41,17 @@ Object::Object() noexcept:
    //mRefCount=2;
 }
 
+Object::Object(const Object&) noexcept: Object()
+{
+   // The reference counter belongs to the object and is not copied.
+}
+
+Object& Object::operator=(const Object&) noexcept
+{
+   // The reference counter belongs to the object and is not assigned.
+   return *this;
+}
+
 Object::~Object() noexcept
 {
    mPool = nullptr;
-- 
2.43.0


From 204274203460a2feb40833fb2a9a61f06380923a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:35 +0000
Subject: [PATCH 140/152] fix: Flagging an object does not lose a concurrent
 change of its reference counter

---
 src/core/Object.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/core/Object.cpp b/src/core/Object.cpp
index eae6eb7..ee7559e 100644
--- a/src/core/Object.cpp
+++ b/src/core/Object.cpp
@@ -116,7 +116,10 @@ void Object::printDiffInfo(DiffOperation, Object*) const
 
 void Object::setHighBit(bool status) noexcept
 {
+   Mutex* mutex = mPool->mutex();
+   mutex->lock();
    mRefCount = referenceCount() | (status ? 0x80000000 : 0x00000000);
+   mutex->unlock();
 }
 
 bool Object::highBit()const noexcept
-- 
2.43.0


From a2788360d1649bb9951548a5163ce6344932393a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:23 +0000
Subject: [PATCH 141/152] fix: The number-aware order also looks behind the
 first 256 characters

---
 src/core/String.cpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/core/String.cpp b/src/core/String.cpp
index 0f57027..2a6a758 100644
--- a/src/core/String.cpp
+++ b/src/core/String.cpp
@@ -717,12 +717,11 @@ static uint64 appendDigit(uint64 number, uint64 digit)
 int32 String::compareFancyTo(const String& another) const
 {
    //Wandle String in 32bit-Zahlen um, wobei Nummernbestandteile direkt umgewandelt werden.
-   uint64 str1[256];
-   uint64 str2[256];
-
-   int64 strl1 = std::min(mStrLength, (int64)256);
-   int64 strl2 = std::min(another.mStrLength, (int64)256);
+   int64 strl1 = mStrLength;
+   int64 strl2 = another.mStrLength;
 
+   std::vector<uint64> str1(strl1);
+   std::vector<uint64> str2(strl2);
    uint32 l1, l2;
 
    //Konvertiere 1. String
-- 
2.43.0


From 11c5b28d9100a912fa8600e122aa644f66953738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:24 +0000
Subject: [PATCH 142/152] fix: Replacing a part of a byte array by another part
 of itself copies the former content

---
 src/core/ByteArray.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/core/ByteArray.cpp b/src/core/ByteArray.cpp
index 5ef3409..9120e0e 100644
--- a/src/core/ByteArray.cpp
+++ b/src/core/ByteArray.cpp
@@ -198,10 +198,8 @@ void ByteArray::replace(int64 tgtOffset, int64 srcOffset, const ByteArray& buffe
 {
    int64 range = std::min(length, mArrSize - tgtOffset);
    range = std::min(range, buffer.mArrSize - srcOffset);
-   for(int64 a = 0; a < range; a++)
-   {
-      mData[tgtOffset + a] = buffer.mData[srcOffset + a];
-   }
+   // The buffer may be this array
+   if(range > 0)memmove(&mData[tgtOffset], &buffer.mData[srcOffset], range);
 }
 
 void ByteArray::replace(uint8 oldValue, uint8 newValue)
-- 
2.43.0


From 3bbdba611d32e0bb794d8addf6fa18e17750f594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:52 +0000
Subject: [PATCH 143/152] fix: Decompressing does not demand many times of the
 memory needed

---
 src/core/Inflater.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/core/Inflater.cpp b/src/core/Inflater.cpp
index 80b49fe..409f3c0 100644
--- a/src/core/Inflater.cpp
+++ b/src/core/Inflater.cpp
@@ -238,9 +238,9 @@ void Inflater::checkCapacity()
 {
    if(mUncompIndex < mUncompLength)return;
 
-   // Increase
-   double ratio = mCompIndex / (double)mCompLength;
-   int64 newLength = mUncompLength + max(int64(4096), int64(mUncompLength / ratio));
+   // Increase. The ratio so far says nothing about the rest: after a highly compressed beginning it
+   // would demand many times of the memory needed.
+   int64 newLength = mUncompLength + max(int64(4096), mUncompLength);
    uint8* tmp = new uint8[newLength];
    if(tmp == nullptr)throw Exception("Cannot allocate memory!");
    memcpy(tmp, mUncompBytes, mUncompIndex);
-- 
2.43.0


From f784190948ac4748b1e1eb368bd8532bcbc0a6c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:24:10 +0000
Subject: [PATCH 144/152] fix: a rollback recorded the changes objects make on
 regenerating

---
 src/core/UndoManager.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/core/UndoManager.cpp b/src/core/UndoManager.cpp
index 62dc68a..686be5a 100644
--- a/src/core/UndoManager.cpp
+++ b/src/core/UndoManager.cpp
@@ -402,13 +402,15 @@ void UndoManager::rollback()
    {
       UndoStep* step = mTransaction;
 
-      // Undo all changes
+      // Undo all changes. What the objects change on regenerating does not belong to the history.
+      mUndoing = true;
       UndoChange* change = step->recent;
       while(change != nullptr)
       {
          change->swap();
          change = change->mPrev;
       }
+      mUndoing = false;
 
       delete mTransaction;
       mTransaction = nullptr;
-- 
2.43.0


From 9fe4813eecd0efff311ab1c9649f7a4428d02cef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:07:39 +0000
Subject: [PATCH 145/152] fix: naming a thread that does not run crashed

---
 src/core/Thread.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/core/Thread.cpp b/src/core/Thread.cpp
index dab8943..5ef26ad 100644
--- a/src/core/Thread.cpp
+++ b/src/core/Thread.cpp
@@ -222,6 +222,8 @@ void Thread::setName(const jm::String& name)
    #if defined __APPLE__
    pthread_setname_np(name.toCString().constData());
    #elif defined __linux__
+   // Not started or already joined
+   if(thread == 0)return;
    ByteArray cstr = name.toCString();
    pthread_setname_np(thread, cstr.constData());
    #elif defined _WIN32
-- 
2.43.0


From 04f52ea3387864fbc34ff6aa07878168d593e8b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:18:55 +0000
Subject: [PATCH 146/152] fix: a copy of a Stack shared its elements with the
 original, both deleted them

---
 include/core/Stack.h | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/include/core/Stack.h b/include/core/Stack.h
index 7bdf28e..c98ebfb 100644
--- a/include/core/Stack.h
+++ b/include/core/Stack.h
@@ -74,6 +74,26 @@ namespace jm
             mCount = 0;
          };
 
+         /*!
+          \brief Copy constructor. The new stack holds copies of the elements.
+          */
+         Stack(const Stack& another): Stack()
+         {
+            *this = another;
+         }
+
+         /*!
+          \brief Replaces the elements of this stack with copies of those of the other stack.
+          */
+         Stack& operator=(const Stack& another)
+         {
+            if(this == &another)return *this;
+            clear();
+            for(StackElement* item = another.mTop; item != nullptr; item = item->prev)push(item->data);
+            reverse();
+            return *this;
+         }
+
          /*!
           \brief Destructor for the stack. Here all variables are deleted.
           */
-- 
2.43.0


From c83e48d2a7bb7b8adaaae14813f535cac374cca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:18:55 +0000
Subject: [PATCH 147/152] fix: copies of hash tables and preferences shared the
 entries with the original, both deleted them

---
 include/core/Hashtable.h   | 10 ++++++++++
 include/core/Preferences.h | 17 +++++++++++++++++
 src/core/Hashtable.cpp     | 16 ++++++++++++++++
 src/core/Preferences.cpp   | 26 ++++++++++++++++++++++++++
 4 files changed, 69 insertions(+)

diff --git a/include/core/Hashtable.h b/include/core/Hashtable.h
index b50e12c..cfdadbd 100644
--- a/include/core/Hashtable.h
+++ b/include/core/Hashtable.h
@@ -55,6 +55,16 @@ namespace jm
           */
          Hashtable() noexcept;
 
+         /*!
+          \brief Copy constructor. The new table has the same keys and pointers to the same values.
+          */
+         Hashtable(const Hashtable& another) noexcept;
+
+         /*!
+          \brief Replaces the entries of this table with those of the other table.
+          */
+         Hashtable& operator=(const Hashtable& another) noexcept;
+
          /*!
           \brief Destructor for the Hashtable class.
           */
diff --git a/include/core/Preferences.h b/include/core/Preferences.h
index f5f44d6..e8c9d35 100644
--- a/include/core/Preferences.h
+++ b/include/core/Preferences.h
@@ -52,6 +52,16 @@ namespace jm
          */
          Preferences();
 
+         /*!
+         \brief Copy constructor. The new object has copies of all entries.
+         */
+         Preferences(const Preferences& another);
+
+         /*!
+         \brief Replaces the entries with copies of those of the other object.
+         */
+         Preferences& operator=(const Preferences& another);
+
          /*!
          \brief Destructor. Deletes all entries in the hashtable.
          */
@@ -151,6 +161,13 @@ namespace jm
           \return The value of the property.
           */
          bool valueBool(const String& key, bool defaultValue) const;
+
+      private:
+
+         /*!
+          \brief Deletes the values of all entries.
+          */
+         void deleteValues();
    };
 
 }
diff --git a/src/core/Hashtable.cpp b/src/core/Hashtable.cpp
index 2858c07..12ecb79 100644
--- a/src/core/Hashtable.cpp
+++ b/src/core/Hashtable.cpp
@@ -46,6 +46,22 @@ Hashtable::Hashtable() noexcept: Object(),
    }
 }
 
+Hashtable::Hashtable(const Hashtable& another) noexcept: Hashtable()
+{
+   *this = another;
+}
+
+Hashtable& Hashtable::operator=(const Hashtable& another) noexcept
+{
+   if(this == &another)return *this;
+   clear();
+   for(int64 index = 0; index < another.mArrLength; index++)
+   {
+      for(HashtableEntry* e = another.mData[index]; e != nullptr; e = e->next)put(e->key, e->value);
+   }
+   return *this;
+}
+
 Hashtable::~Hashtable() noexcept
 {
    clear();
diff --git a/src/core/Preferences.cpp b/src/core/Preferences.cpp
index 3b5ef8e..c0bcabc 100644
--- a/src/core/Preferences.cpp
+++ b/src/core/Preferences.cpp
@@ -74,7 +74,33 @@ Preferences::Preferences(): Hashtable()
 }
 
 
+Preferences::Preferences(const Preferences& another): Hashtable()
+{
+   *this = another;
+}
+
+Preferences& Preferences::operator=(const Preferences& another)
+{
+   if(this == &another)return *this;
+   deleteValues();
+   Hashtable::operator=(another);
+
+   Iterator* i = keys();
+   while(i->hasNext())
+   {
+      String* key = reinterpret_cast<String*>(i->next());
+      put(*key, new String(*static_cast<String*>(get(*key))));
+   }
+   delete i;
+   return *this;
+}
+
 Preferences::~Preferences()
+{
+   deleteValues();
+}
+
+void Preferences::deleteValues()
 {
    Iterator* i = keys();
    while(i->hasNext())
-- 
2.43.0


From 39662d600e7adf3bc347a8fdb10317dbd544a68e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:18:55 +0000
Subject: [PATCH 148/152] fix: a copy of a Nurbs shared its arrays with the
 original, both deleted them

---
 include/core/Nurbs.h | 10 ++++++++++
 src/core/NURBS.cpp   | 28 ++++++++++++++++++++++++++++
 2 files changed, 38 insertions(+)

diff --git a/include/core/Nurbs.h b/include/core/Nurbs.h
index 814f367..0ed41f6 100644
--- a/include/core/Nurbs.h
+++ b/include/core/Nurbs.h
@@ -77,6 +77,16 @@ namespace jm
                double* weights,
                uint32 weightCount);
 
+         /*!
+          \brief Copy constructor
+          */
+         Nurbs(const Nurbs& another);
+
+         /*!
+          \brief Assigns the curve of the other object to this one.
+          */
+         Nurbs& operator=(const Nurbs& another);
+
          /*!
           \brief Destructor
           */
diff --git a/src/core/NURBS.cpp b/src/core/NURBS.cpp
index 886ea7e..ff280d9 100644
--- a/src/core/NURBS.cpp
+++ b/src/core/NURBS.cpp
@@ -68,6 +68,34 @@ Nurbs::Nurbs(uint32 degree,
    for(uint32 a = 0; a < mWeightCount; a++)mWeights[a] = weights[a];
 }
 
+Nurbs::Nurbs(const Nurbs& another): Nurbs()
+{
+   *this = another;
+}
+
+Nurbs& Nurbs::operator=(const Nurbs& another)
+{
+   if(this == &another)return *this;
+   delete[] mControlpoints;
+   delete[] mKnots;
+   delete[] mWeights;
+
+   mDegree = another.mDegree;
+
+   mControlCount = another.mControlCount;
+   mControlpoints = new Vertex3[mControlCount];
+   for(uint32 a = 0; a < mControlCount; a++)mControlpoints[a] = another.mControlpoints[a];
+
+   mKnotCount = another.mKnotCount;
+   mKnots = new double[mKnotCount];
+   for(uint32 a = 0; a < mKnotCount; a++)mKnots[a] = another.mKnots[a];
+
+   mWeightCount = another.mWeightCount;
+   mWeights = new double[mWeightCount];
+   for(uint32 a = 0; a < mWeightCount; a++)mWeights[a] = another.mWeights[a];
+   return *this;
+}
+
 Nurbs::~Nurbs()
 {
    if(mControlpoints != nullptr)delete[] mControlpoints;
-- 
2.43.0


From d0e649b8eec37aade52f23ab18641fdef151877d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:18:55 +0000
Subject: [PATCH 149/152] fix: a copy of a DateFormatter shared its patterns
 with the original, both deleted them

---
 include/core/Date.h        | 12 ++++++++++++
 src/core/DateFormatter.cpp | 36 +++++++++++++++++++++++++++++++-----
 2 files changed, 43 insertions(+), 5 deletions(-)

diff --git a/include/core/Date.h b/include/core/Date.h
index c63e745..b1fd90c 100644
--- a/include/core/Date.h
+++ b/include/core/Date.h
@@ -472,6 +472,16 @@ namespace jm
          */
          explicit DateFormatter(const String& pattern);
 
+         /*!
+          \brief Copy constructor
+         */
+         DateFormatter(const DateFormatter& another);
+
+         /*!
+          \brief Takes over the pattern of the other formatter.
+         */
+         DateFormatter& operator=(const DateFormatter& another);
+
          ~DateFormatter();
 
          String format(const Date& date)const;
@@ -526,6 +536,8 @@ namespace jm
          Pattern* mPatterns;
          Pattern* mLast;
 
+         //! Replaces the patterns with copies of the given ones.
+         void copyPatterns(const Pattern* patterns);
    };
 
 }
diff --git a/src/core/DateFormatter.cpp b/src/core/DateFormatter.cpp
index e2545d8..c041d7c 100644
--- a/src/core/DateFormatter.cpp
+++ b/src/core/DateFormatter.cpp
@@ -103,17 +103,43 @@ DateFormatter::DateFormatter(const String& pattern): Object()
    }
 }
 
+DateFormatter::DateFormatter(const DateFormatter& another): Object(),
+   mPatterns(nullptr),
+   mLast(nullptr)
+{
+   copyPatterns(another.mPatterns);
+}
+
+DateFormatter& DateFormatter::operator=(const DateFormatter& another)
+{
+   if(this != &another)copyPatterns(another.mPatterns);
+   return *this;
+}
+
 DateFormatter::~DateFormatter()
 {
-   Pattern* p = mPatterns;
-   while(p != nullptr)
+   copyPatterns(nullptr);
+}
+
+void DateFormatter::copyPatterns(const Pattern* patterns)
+{
+   while(mPatterns != nullptr)
    {
-      Pattern* tmp = p;
-      p = p->next;
+      Pattern* tmp = mPatterns;
+      mPatterns = mPatterns->next;
       delete tmp;
    }
-}
 
+   mLast = nullptr;
+   for(; patterns != nullptr; patterns = patterns->next)
+   {
+      Pattern* copy = new Pattern(*patterns);
+      copy->next = nullptr;
+      if(mLast == nullptr)mPatterns = copy;
+      else mLast->next = copy;
+      mLast = copy;
+   }
+}
 String DateFormatter::format(const Date& date) const
 {
    String value;
-- 
2.43.0


From 9bca11977389e4fafd489261e74b230328f15257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:05:40 +0000
Subject: [PATCH 150/152] fix: a copy of a difference path shared its steps
 with the original, both deleted them

---
 include/core/DiffBacktrace.h |  6 +++++-
 src/core/DiffBacktrace.cpp   | 30 ++++++++++++++++++++++++++++--
 2 files changed, 33 insertions(+), 3 deletions(-)

diff --git a/include/core/DiffBacktrace.h b/include/core/DiffBacktrace.h
index 9162138..5cd68ad 100644
--- a/include/core/DiffBacktrace.h
+++ b/include/core/DiffBacktrace.h
@@ -58,10 +58,14 @@ namespace jm
          DiffBacktrace();
 
          /*!
-          \brief Copy constructor
+          \brief Copy constructor. The copy has steps of its own, from this one to the end of the path.
           */
          DiffBacktrace(const DiffBacktrace& another);
 
+         /*!
+          \brief Replaces this step and the ones behind it with copies of the other path.
+          */
+         DiffBacktrace& operator=(const DiffBacktrace& another);
          /*!
           \brief Destructor
           */
diff --git a/src/core/DiffBacktrace.cpp b/src/core/DiffBacktrace.cpp
index 5da160b..bba069c 100644
--- a/src/core/DiffBacktrace.cpp
+++ b/src/core/DiffBacktrace.cpp
@@ -49,10 +49,36 @@ DiffBacktrace::DiffBacktrace(const DiffBacktrace& another)
    mOperation = another.mOperation;
    mObj1 = another.mObj1;
    mObj2 = another.mObj2;
-   mPrev = another.mPrev;
-   mNext = another.mNext;
+   mPrev = nullptr;
+   mNext = nullptr;
+
+   // The following steps belong to the step, every copy has its own
+   DiffBacktrace* last = this;
+   for(const DiffBacktrace* step = another.mNext; step != nullptr; step = step->mNext)
+   {
+      last->mNext = new DiffBacktrace();
+      last->mNext->mSize = step->mSize;
+      last->mNext->mOperation = step->mOperation;
+      last->mNext->mObj1 = step->mObj1;
+      last->mNext->mObj2 = step->mObj2;
+      last->mNext->mPrev = last;
+      last = last->mNext;
+   }
 }
 
+DiffBacktrace& DiffBacktrace::operator=(const DiffBacktrace& another)
+{
+   if(this == &another)return *this;
+
+   DiffBacktrace copy(another);
+   mSize = copy.mSize;
+   mOperation = copy.mOperation;
+   mObj1 = copy.mObj1;
+   mObj2 = copy.mObj2;
+   std::swap(mNext, copy.mNext);
+   if(mNext != nullptr)mNext->mPrev = this;
+   return *this;
+}
 DiffBacktrace::~DiffBacktrace()
 {
 
-- 
2.43.0


From fe3d7e333ec8c0140d57b201ae17a34f0e4c4670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:19:09 +0000
Subject: [PATCH 151/152] fix: testEquals() reported an infinite number as
 different from itself

---
 src/core/Test.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/core/Test.cpp b/src/core/Test.cpp
index 2ac7a44..3ad7b73 100644
--- a/src/core/Test.cpp
+++ b/src/core/Test.cpp
@@ -71,7 +71,8 @@ void Test::testEquals(const double actual, const double expected, const String&
    jm::gTotalTestCount++;
    jm::gTestCount++;
 
-   if(fabs(actual - expected) <= RESABS) return;
+   // The difference of two infinities is no number
+   if(actual == expected || fabs(actual - expected) <= RESABS) return;
 
    jm::gTotalErrorCount++;
    jm::gErrorCount++;
-- 
2.43.0


From 9594157a5e0eb2cdd1784b62b2602320b4c3c353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:35:07 +0000
Subject: [PATCH 152/152] fix: a ZIP file that refused an entry left its
 temporary file behind, still open

---
 include/core/ZipFile.h     |  5 +++++
 src/core/ZipOutputFile.cpp | 15 +++++++++++++++
 2 files changed, 20 insertions(+)

diff --git a/include/core/ZipFile.h b/include/core/ZipFile.h
index c9ac031..740598d 100644
--- a/include/core/ZipFile.h
+++ b/include/core/ZipFile.h
@@ -181,6 +181,11 @@ namespace jm
          */
          explicit ZipOutputFile(File* file);
 
+         /*!
+         \brief Destructor. Removes the temporary file of an entry that was not completed.
+         */
+         ~ZipOutputFile() override;
+
          /*!
          \brief Opens the file for writing.
          */
diff --git a/src/core/ZipOutputFile.cpp b/src/core/ZipOutputFile.cpp
index ab7dd84..a058c70 100644
--- a/src/core/ZipOutputFile.cpp
+++ b/src/core/ZipOutputFile.cpp
@@ -59,6 +59,21 @@ ZipOutputFile::ZipOutputFile(File* file): jm::Object(),
    mTemp = nullptr;
 }
 
+ZipOutputFile::~ZipOutputFile()
+{
+   // Only left, if an entry was refused or not closed
+   if(mTemp == nullptr)return;
+   try
+   {
+      mTemp->close();
+   }
+   catch(Exception& e)
+   {
+      // The content is not needed any more
+   }
+   mTemp->remove();
+   delete mTemp;
+}
 void ZipOutputFile::open()
 {
    // A longer previous content must not remain behind the directory
-- 
2.43.0

