From d02d6bdc635797b89601f4590859052034620dab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:57 +0000
Subject: [PATCH 001/128] fix: write the compressed data of unfiltered streams
 instead of dropping it

---
 src/pdfmm/base/PdfObject.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pdfmm/base/PdfObject.cpp b/src/pdfmm/base/PdfObject.cpp
index b9c16f3..52c37d9 100644
--- a/src/pdfmm/base/PdfObject.cpp
+++ b/src/pdfmm/base/PdfObject.cpp
@@ -251,7 +251,7 @@ void PdfObject::Write(OutputStreamDevice& device, PdfWriteFlags writeMode,
                 input.CopyTo(output);
             }
 
-            stream.MoveFrom(*m_Stream);
+            m_Stream->MoveFrom(stream);
         }
 
         // Set length if it's not handled by the underlying provider
-- 
2.43.0


From 21147b83491e82840ca614fc884329268d62d191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:57 +0000
Subject: [PATCH 002/128] fix: keep an object's stream in step with assignment
 and moves

Assigning an object without stream left the previous stream attached, and
a moved stream kept pointing to the moved-from object.
---
 src/pdfmm/base/PdfObject.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/pdfmm/base/PdfObject.cpp b/src/pdfmm/base/PdfObject.cpp
index 52c37d9..b5bc9a4 100644
--- a/src/pdfmm/base/PdfObject.cpp
+++ b/src/pdfmm/base/PdfObject.cpp
@@ -387,12 +387,19 @@ void PdfObject::copyStreamFrom(const PdfObject& obj)
         auto& stream = getOrCreateStream();
         stream = *obj.m_Stream;
     }
+    else
+    {
+        // An object without stream has been assigned
+        m_Stream = nullptr;
+    }
 }
 
 void PdfObject::moveStreamFrom(PdfObject& obj)
 {
     obj.DelayedLoadStream();
     m_Stream = std::move(obj.m_Stream);
+    if (m_Stream != nullptr)
+        m_Stream->m_Parent = this;
 }
 
 void PdfObject::EnableDelayedLoading()
-- 
2.43.0


From 4e776b2758746bca308aad45789e0305fd1045da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:57 +0000
Subject: [PATCH 003/128] fix: writing to a stream through its output stream
 marks the object dirty

---
 src/pdfmm/base/PdfObjectStream.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pdfmm/base/PdfObjectStream.cpp b/src/pdfmm/base/PdfObjectStream.cpp
index f29f152..6b26583 100644
--- a/src/pdfmm/base/PdfObjectStream.cpp
+++ b/src/pdfmm/base/PdfObjectStream.cpp
@@ -34,18 +34,21 @@ PdfObjectStream::~PdfObjectStream() { }
 PdfObjectOutputStream PdfObjectStream::GetOutputStreamRaw(bool append)
 {
     ensureClosed();
+    m_Parent->SetDirty();
     return PdfObjectOutputStream(*this, PdfFilterList(), append);
 }
 
 PdfObjectOutputStream PdfObjectStream::GetOutputStream(bool append)
 {
     ensureClosed();
+    m_Parent->SetDirty();
     return PdfObjectOutputStream(*this, { DefaultFilter }, append);
 }
 
 PdfObjectOutputStream PdfObjectStream::GetOutputStream(const PdfFilterList& filters, bool append)
 {
     ensureClosed();
+    m_Parent->SetDirty();
     return PdfObjectOutputStream(*this, PdfFilterList(filters), append);
 }
 
-- 
2.43.0


From f501311f66da1a7831d3cb6f59fb56b89a638b50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:57 +0000
Subject: [PATCH 004/128] fix: drop stale /DecodeParms when the data of a
 stream is replaced

---
 src/pdfmm/base/PdfObjectStream.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pdfmm/base/PdfObjectStream.cpp b/src/pdfmm/base/PdfObjectStream.cpp
index 6b26583..0a28dbf 100644
--- a/src/pdfmm/base/PdfObjectStream.cpp
+++ b/src/pdfmm/base/PdfObjectStream.cpp
@@ -450,6 +450,9 @@ PdfObjectOutputStream::~PdfObjectOutputStream()
                 m_stream->GetParent().GetDictionary().AddKey(PdfName::KeyFilter, arrFilters);
             }
 
+            // The new data wasn't encoded with the previous decode parameters
+            m_stream->GetParent().GetDictionary().RemoveKey(DecodeParmsKey);
+
             m_stream->m_Filters = std::move(filters);
         }
 
-- 
2.43.0


From 25529d6305e8964fe39b1dc10c0c1ff2a522075a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:53 +0000
Subject: [PATCH 005/128] fix: decode PNG average predictor and rows or pixels
 that don't fill their last byte

---
 src/pdfmm/private/PdfFiltersPrivate.cpp | 22 +++++++++-------------
 1 file changed, 9 insertions(+), 13 deletions(-)

diff --git a/src/pdfmm/private/PdfFiltersPrivate.cpp b/src/pdfmm/private/PdfFiltersPrivate.cpp
index bf89236..c444423 100644
--- a/src/pdfmm/private/PdfFiltersPrivate.cpp
+++ b/src/pdfmm/private/PdfFiltersPrivate.cpp
@@ -55,19 +55,15 @@ public:
         }
 
         m_CurrRowIndex = 0;
-        m_BytesPerPixel = (m_BitsPerComponent * m_Colors) >> 3;
-        m_Rows = (m_ColumnCount * m_Colors * m_BitsPerComponent) >> 3;
-
-        // check for multiplication overflow on buffer sizes (e.g. if m_nBPC=2 and m_nColors=SIZE_MAX/2+1)
-        if (utls::DoesMultiplicationOverflow(m_BitsPerComponent, m_Colors)
-            || utls::DoesMultiplicationOverflow(m_ColumnCount, m_BitsPerComponent * m_Colors))
-        {
+        // check for multiplication overflow on buffer sizes (e.g. if m_nBPC=2 and m_nColors=INT_MAX/2+1)
+        constexpr int64_t maxBits = std::numeric_limits<int>::max() - 7;
+        int64_t pixelBits = static_cast<int64_t>(m_BitsPerComponent) * m_Colors;
+        if (pixelBits > maxBits || m_ColumnCount > maxBits / pixelBits)
             PDFMM_RAISE_ERROR(PdfErrorCode::ValueOutOfRange);
-        }
 
-        // check that computed allocation sizes are > 0 (CVE-2018-20797)
-        if (m_Rows < 1 || m_BitsPerComponent < 1)
-            PDFMM_RAISE_ERROR(PdfErrorCode::ValueOutOfRange);
+        // Pixels and rows that don't fill their last byte are rounded up
+        m_BytesPerPixel = static_cast<int>((pixelBits + 7) >> 3);
+        m_Rows = static_cast<int>((m_ColumnCount * pixelBits + 7) >> 3);
 
         m_Prev.resize(m_Rows);
         memset(m_Prev.data(), 0, sizeof(char) * m_Rows);
@@ -129,8 +125,8 @@ public:
                     case 13: // png average
                     {
                         int prev = (m_CurrRowIndex - m_BytesPerPixel < 0
-                            ? 0 : m_Prev[m_CurrRowIndex - m_BytesPerPixel]);
-                        m_Prev[m_CurrRowIndex] = ((prev + m_Prev[m_CurrRowIndex]) >> 1) + *buffer;
+                            ? 0 : static_cast<unsigned char>(m_Prev[m_CurrRowIndex - m_BytesPerPixel]));
+                        m_Prev[m_CurrRowIndex] = ((prev + static_cast<unsigned char>(m_Prev[m_CurrRowIndex])) >> 1) + *buffer;
                         break;
                     }
                     case 14: // png paeth
-- 
2.43.0


From 74d26b1a4451a91d952996d0ddece601c94899e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:53 +0000
Subject: [PATCH 006/128] fix: decode run lengths exactly, also when they are
 split in several blocks

---
 src/pdfmm/private/PdfFiltersPrivate.cpp | 42 ++++++++++++++-----------
 1 file changed, 24 insertions(+), 18 deletions(-)

diff --git a/src/pdfmm/private/PdfFiltersPrivate.cpp b/src/pdfmm/private/PdfFiltersPrivate.cpp
index c444423..a604e1c 100644
--- a/src/pdfmm/private/PdfFiltersPrivate.cpp
+++ b/src/pdfmm/private/PdfFiltersPrivate.cpp
@@ -592,7 +592,7 @@ void PdfFlateFilter::EndDecodeImpl()
 #pragma region PdfRLEFilter
 
 PdfRLEFilter::PdfRLEFilter()
-    : m_CodeLen(0)
+    : m_CodeLen(-1)
 {
 }
 
@@ -613,35 +613,41 @@ void PdfRLEFilter::EndEncodeImpl()
 
 void PdfRLEFilter::BeginDecodeImpl(const PdfDictionary*)
 {
-    m_CodeLen = 0;
+    m_CodeLen = -1;
 }
 
 void PdfRLEFilter::DecodeBlockImpl(const char* buffer, size_t len)
 {
-    while (len-- != 0)
+    // NOTE: Runs may extend over several blocks. m_CodeLen is -1 when a
+    // length byte is expected, 128 after the end of the data was found,
+    // 129..255 when the byte to repeat is expected, otherwise the count
+    // of the bytes to copy which are still missing, minus one
+    while (len != 0 && m_CodeLen != 128)
     {
-        if (m_CodeLen == 0)
-        {
-            m_CodeLen = static_cast<int>(*buffer);
-        }
-        else if (m_CodeLen == 128)
+        if (m_CodeLen == -1)
         {
-            break;
+            m_CodeLen = static_cast<unsigned char>(*buffer);
+            buffer++;
+            len--;
         }
         else if (m_CodeLen <= 127)
         {
-            GetStream()->Write(buffer, 1);
-            m_CodeLen--;
+            size_t count = std::min(static_cast<size_t>(m_CodeLen) + 1, len);
+            GetStream()->Write(buffer, count);
+            m_CodeLen -= static_cast<int>(count);
+            buffer += count;
+            len -= count;
         }
-        else if (m_CodeLen >= 129)
+        else
         {
-            m_CodeLen = 257 - m_CodeLen;
-
-            while (m_CodeLen--)
-                GetStream()->Write(buffer, 1);
+            char run[128];
+            size_t count = 257 - m_CodeLen;
+            std::memset(run, *buffer, count);
+            GetStream()->Write(run, count);
+            m_CodeLen = -1;
+            buffer++;
+            len--;
         }
-
-        buffer++;
     }
 }
 
-- 
2.43.0


From 3768d7095d944425a173a3d1b33e860ad2b446bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:53 +0000
Subject: [PATCH 007/128] fix: decode LZW data exactly, also when it is split
 in several blocks

---
 src/pdfmm/private/PdfFiltersPrivate.cpp | 134 ++++++++++++------------
 src/pdfmm/private/PdfFiltersPrivate.h   |   9 +-
 2 files changed, 73 insertions(+), 70 deletions(-)

diff --git a/src/pdfmm/private/PdfFiltersPrivate.cpp b/src/pdfmm/private/PdfFiltersPrivate.cpp
index a604e1c..8292b2a 100644
--- a/src/pdfmm/private/PdfFiltersPrivate.cpp
+++ b/src/pdfmm/private/PdfFiltersPrivate.cpp
@@ -655,6 +655,8 @@ void PdfRLEFilter::DecodeBlockImpl(const char* buffer, size_t len)
 
 #pragma region PdfLZWFilter
 
+constexpr unsigned LZW_TABLE_SIZE = 4096;
+
 const unsigned short PdfLZWFilter::s_masks[] = { 0x01FF, 0x03FF, 0x07FF, 0x0FFF };
 const unsigned short PdfLZWFilter::s_clear = 0x0100;      // clear table
 const unsigned short PdfLZWFilter::s_eod = 0x0101;      // end of data
@@ -662,8 +664,11 @@ const unsigned short PdfLZWFilter::s_eod = 0x0101;      // end of data
 PdfLZWFilter::PdfLZWFilter() :
     m_mask(0),
     m_code_len(0),
-    m_character(0),
-    m_First(false)
+    m_codeBuff(0),
+    m_codeBuffSize(0),
+    m_old(-1),
+    m_earlyChange(1),
+    m_eod(false)
 {
 }
 
@@ -686,100 +691,90 @@ void PdfLZWFilter::BeginDecodeImpl(const PdfDictionary* decodeParms)
 {
     m_mask = 0;
     m_code_len = 9;
-    m_character = 0;
-
-    m_First = true;
+    m_codeBuff = 0;
+    m_codeBuffSize = 0;
+    m_old = -1;
+    m_earlyChange = 1;
+    m_eod = false;
 
     if (decodeParms != nullptr)
+    {
+        m_earlyChange = decodeParms->FindKeyAs<int64_t>("EarlyChange", 1) == 0 ? 0 : 1;
         m_Predictor.reset(new PdfPredictorDecoder(*decodeParms));
+    }
 
     InitTable();
 }
 
 void PdfLZWFilter::DecodeBlockImpl(const char* buffer, size_t len)
 {
-    unsigned buffer_size = 0;
-    const unsigned buffer_max = 24;
-
-    uint32_t old = 0;
-    uint32_t code = 0;
-    uint32_t codeBuff = 0;
-
-    TLzwItem item;
-
+    // NOTE: Codes may extend over several blocks
     vector<unsigned char> data;
-    if (m_First)
-    {
-        m_character = *buffer;
-        m_First = false;
-    }
-
-    while (len != 0)
+    while (!m_eod)
     {
         // Fill the buffer
-        while (buffer_size <= (buffer_max - 8) && len)
+        while (m_codeBuffSize < m_code_len && len != 0)
         {
-            codeBuff <<= 8;
-            codeBuff |= static_cast<uint32_t>(static_cast<unsigned char>(*buffer));
-            buffer_size += 8;
+            m_codeBuff <<= 8;
+            m_codeBuff |= static_cast<uint32_t>(static_cast<unsigned char>(*buffer));
+            m_codeBuffSize += 8;
 
             buffer++;
             len--;
         }
 
+        if (m_codeBuffSize < m_code_len)
+            break;
+
         // read from the buffer
-        while (buffer_size >= m_code_len)
-        {
-            code = (codeBuff >> (buffer_size - m_code_len)) & PdfLZWFilter::s_masks[m_mask];
-            buffer_size -= m_code_len;
+        uint32_t code = (m_codeBuff >> (m_codeBuffSize - m_code_len)) & PdfLZWFilter::s_masks[m_mask];
+        m_codeBuffSize -= m_code_len;
 
-            if (code == PdfLZWFilter::s_clear)
-            {
-                m_mask = 0;
-                m_code_len = 9;
+        if (code == PdfLZWFilter::s_clear)
+        {
+            m_mask = 0;
+            m_code_len = 9;
+            m_old = -1;
 
-                InitTable();
-            }
-            else if (code == PdfLZWFilter::s_eod)
+            InitTable();
+        }
+        else if (code == PdfLZWFilter::s_eod)
+        {
+            m_eod = true;
+        }
+        else
+        {
+            if (code < m_table.size())
             {
-                len = 0;
-                break;
+                data = m_table[code].value;
             }
             else
             {
-                if (code >= m_table.size())
-                {
-                    if (old >= m_table.size())
-                    {
-                        PDFMM_RAISE_ERROR(PdfErrorCode::ValueOutOfRange);
-                    }
-                    data = m_table[old].value;
-                    data.push_back(m_character);
-                }
-                else
-                    data = m_table[code].value;
-
-                // Write data to the output device
-                if (m_Predictor != nullptr)
-                    m_Predictor->Decode(reinterpret_cast<char*>(data.data()), data.size(), GetStream());
-                else
-                    GetStream()->Write(reinterpret_cast<char*>(data.data()), data.size());
+                if (m_old == -1)
+                    PDFMM_RAISE_ERROR(PdfErrorCode::ValueOutOfRange);
 
-                m_character = data[0];
-                if (old < m_table.size()) // fix the first loop
-                    data = m_table[old].value;
-                data.push_back(m_character);
+                data = m_table[m_old].value;
+                data.push_back(data[0]);
+            }
 
-                item.value = data;
-                m_table.push_back(item);
+            // Write data to the output device
+            if (m_Predictor != nullptr)
+                m_Predictor->Decode(reinterpret_cast<char*>(data.data()), data.size(), GetStream());
+            else
+                GetStream()->Write(reinterpret_cast<char*>(data.data()), data.size());
 
-                old = code;
+            if (m_old != -1 && m_table.size() < LZW_TABLE_SIZE)
+            {
+                TLzwItem item;
+                item.value = m_table[m_old].value;
+                item.value.push_back(data[0]);
+                m_table.push_back(std::move(item));
 
-                switch (m_table.size())
+                switch (m_table.size() + m_earlyChange)
                 {
-                    case 511:
-                    case 1023:
-                    case 2047:
+                    case 512:
+                    case 1024:
+                    case 2048:
                         m_code_len++;
                         m_mask++;
                         break;
@@ -787,6 +782,8 @@ void PdfLZWFilter::DecodeBlockImpl(const char* buffer, size_t len)
                         break;
                 }
             }
+
+            m_old = (int)std::min<size_t>(code, m_table.size() - 1);
         }
     }
 }
@@ -798,7 +795,6 @@ void PdfLZWFilter::EndDecodeImpl()
 
 void PdfLZWFilter::InitTable()
 {
-    constexpr unsigned LZW_TABLE_SIZE = 4096;
     TLzwItem item;
 
     m_table.clear();
@@ -811,9 +807,11 @@ void PdfLZWFilter::InitTable()
         m_table.push_back(item);
     }
 
-    // Add dummy entry, which is never used by decoder
+    // Add dummy entries for the clear and end of data
+    // codes, which are never used by decoder
     item.value.clear();
     m_table.push_back(item);
+    m_table.push_back(item);
 }
 
 #pragma endregion // PdfLZWFilter
diff --git a/src/pdfmm/private/PdfFiltersPrivate.h b/src/pdfmm/private/PdfFiltersPrivate.h
index b41d766..7659f42 100644
--- a/src/pdfmm/private/PdfFiltersPrivate.h
+++ b/src/pdfmm/private/PdfFiltersPrivate.h
@@ -195,9 +195,14 @@ private:
 
     unsigned m_mask;
     unsigned m_code_len;
-    unsigned char m_character;
 
-    bool m_First;
+    // Bits of the input not used yet
+    uint32_t m_codeBuff;
+    unsigned m_codeBuffSize;
+
+    int m_old;              // Previous code, -1 if none
+    unsigned m_earlyChange;
+    bool m_eod;
 
     std::shared_ptr<PdfPredictorDecoder> m_Predictor;
 };
-- 
2.43.0


From c5016d76eab33caae1c51509a13fdfed9efae3a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:28 +0000
Subject: [PATCH 008/128] fix: honour the end marker and an odd last digit in
 hexadecimal data

---
 src/pdfmm/private/PdfFiltersPrivate.cpp | 18 +++++++++++++-----
 src/pdfmm/private/PdfFiltersPrivate.h   |  1 +
 2 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/pdfmm/private/PdfFiltersPrivate.cpp b/src/pdfmm/private/PdfFiltersPrivate.cpp
index 8292b2a..63e52c4 100644
--- a/src/pdfmm/private/PdfFiltersPrivate.cpp
+++ b/src/pdfmm/private/PdfFiltersPrivate.cpp
@@ -219,7 +219,7 @@ private:
 #pragma region PdfHexFilter
 
 PdfHexFilter::PdfHexFilter()
-    : m_DecodedByte(0), m_Low(true)
+    : m_DecodedByte(0), m_Low(true), m_eod(false)
 {
 }
 
@@ -238,12 +238,13 @@ void PdfHexFilter::BeginDecodeImpl(const PdfDictionary*)
 {
     m_DecodedByte = 0;
     m_Low = true;
+    m_eod = false;
 }
 
 void PdfHexFilter::DecodeBlockImpl(const char* buffer, size_t len)
 {
-    unsigned char val;
-    while (len-- != 0)
+    unsigned char val = 0;
+    while (len-- != 0 && !m_eod)
     {
         if (PdfTokenizer::IsWhitespace(*buffer))
         {
@@ -251,6 +252,13 @@ void PdfHexFilter::DecodeBlockImpl(const char* buffer, size_t len)
             continue;
         }
 
+        if (*buffer == '>')
+        {
+            // End of data
+            m_eod = true;
+            break;
+        }
+
         (void)utls::TryGetHexValue(*buffer, val);
         if (m_Low)
         {
@@ -274,8 +282,8 @@ void PdfHexFilter::EndDecodeImpl()
     if (!m_Low)
     {
         // an odd number of bytes was read,
-        // so the last byte is 0
-        GetStream()->Write(m_DecodedByte);
+        // so the last digit is 0
+        GetStream()->Write(static_cast<char>(m_DecodedByte << 4));
     }
 }
 
diff --git a/src/pdfmm/private/PdfFiltersPrivate.h b/src/pdfmm/private/PdfFiltersPrivate.h
index 7659f42..28b618b 100644
--- a/src/pdfmm/private/PdfFiltersPrivate.h
+++ b/src/pdfmm/private/PdfFiltersPrivate.h
@@ -49,6 +49,7 @@ public:
 private:
     char m_DecodedByte;
     bool m_Low;
+    bool m_eod;
 };
 
 /** The Ascii85 filter.
-- 
2.43.0


From 0c01483f8fe26e6803f4f0bbc03e76d97c158fc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:05 +0000
Subject: [PATCH 009/128] fix: find the end marker of Ascii85 data split in
 several blocks

---
 src/pdfmm/private/PdfFiltersPrivate.cpp | 24 ++++++++++++++----------
 src/pdfmm/private/PdfFiltersPrivate.h   |  1 +
 2 files changed, 15 insertions(+), 10 deletions(-)

diff --git a/src/pdfmm/private/PdfFiltersPrivate.cpp b/src/pdfmm/private/PdfFiltersPrivate.cpp
index 63e52c4..a7631a8 100644
--- a/src/pdfmm/private/PdfFiltersPrivate.cpp
+++ b/src/pdfmm/private/PdfFiltersPrivate.cpp
@@ -297,7 +297,7 @@ void PdfHexFilter::EndDecodeImpl()
 // Paul Haahr - http://www.webcom.com/~haahr/
 
 PdfAscii85Filter::PdfAscii85Filter()
-    : m_count(0), m_tuple(0)
+    : m_count(0), m_tuple(0), m_endMarker(0)
 {
 }
 
@@ -373,14 +373,23 @@ void PdfAscii85Filter::BeginDecodeImpl(const PdfDictionary*)
 {
     m_count = 0;
     m_tuple = 0;
+    m_endMarker = 0;
 }
 
 void PdfAscii85Filter::DecodeBlockImpl(const char* buffer, size_t len)
 {
-    bool foundEndMarker = false;
-
-    while (len != 0 && !foundEndMarker)
+    // NOTE: The end marker and the data may be split in several blocks
+    while (len != 0 && m_endMarker != 2)
     {
+        if (m_endMarker == 1)
+        {
+            if (*buffer != '>')
+                PDFMM_RAISE_ERROR(PdfErrorCode::ValueOutOfRange);
+
+            m_endMarker = 2;
+            break;
+        }
+
         switch (*buffer)
         {
             default:
@@ -406,12 +415,7 @@ void PdfAscii85Filter::DecodeBlockImpl(const char* buffer, size_t len)
                 this->WidePut(0, 4);
                 break;
             case '~':
-                buffer++;
-                len--;
-                if (len != 0 && *buffer != '>')
-                    PDFMM_RAISE_ERROR(PdfErrorCode::ValueOutOfRange);
-
-                foundEndMarker = true;
+                m_endMarker = 1;
                 break;
             case '\n': case '\r': case '\t': case ' ':
             case '\0': case '\f': case '\b': case 0177:
diff --git a/src/pdfmm/private/PdfFiltersPrivate.h b/src/pdfmm/private/PdfFiltersPrivate.h
index 28b618b..9480eda 100644
--- a/src/pdfmm/private/PdfFiltersPrivate.h
+++ b/src/pdfmm/private/PdfFiltersPrivate.h
@@ -84,6 +84,7 @@ private:
 private:
     int m_count;
     unsigned m_tuple;
+    int m_endMarker;    // Count of end marker characters found
 };
 
 /** The Flate filter.
-- 
2.43.0


From 567ce814ae9b5621ed58b890ebcafb3880e8f41e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:36 +0000
Subject: [PATCH 010/128] fix: don't terminate when the sink of an encoding
 stream fails

---
 src/pdfmm/base/PdfFilter.cpp | 35 ++++++++++++++++++++++++++++-------
 1 file changed, 28 insertions(+), 7 deletions(-)

diff --git a/src/pdfmm/base/PdfFilter.cpp b/src/pdfmm/base/PdfFilter.cpp
index 55814fd..b393682 100644
--- a/src/pdfmm/base/PdfFilter.cpp
+++ b/src/pdfmm/base/PdfFilter.cpp
@@ -30,22 +30,42 @@ private:
     }
     ~PdfFilteredEncodeStream()
     {
-        m_filter->EndEncode();
+        if (m_FilterFailed)
+            return;
+
+        try
+        {
+            m_filter->EndEncode();
+        }
+        catch (...)
+        {
+            // Destructors can't throw
+            mm::LogMessage(PdfLogSeverity::Error, "Error while finishing the encoding of a stream");
+        }
     }
 public:
     PdfFilteredEncodeStream(const shared_ptr<OutputStream>& outputStream, PdfFilterType filterType)
-        : m_OutputStream(outputStream)
+        : m_OutputStream(outputStream), m_FilterFailed(false)
     {
         init(*outputStream, filterType);
     }
 protected:
     void writeBuffer(const char* buffer, size_t len) override
     {
-        m_filter->EncodeBlock({ buffer, len });
+        try
+        {
+            m_filter->EncodeBlock({ buffer, len });
+        }
+        catch (...)
+        {
+            m_FilterFailed = true;
+            throw;
+        }
     }
 private:
     shared_ptr<OutputStream> m_OutputStream;
     unique_ptr<PdfFilter> m_filter;
+    bool m_FilterFailed;
 };
 
 // An OutputStream class that actually perform the deecoding
@@ -155,6 +175,7 @@ protected:
 
         auto readSize = ReadBuffer(*m_inputStream, buffer, size, m_inputEof);
         m_buffer.clear();
+        m_offset = 0;
         m_filterStream->Write(buffer, readSize);
         if (m_inputEof)
             m_filterStream->Flush();
@@ -406,8 +427,10 @@ void PdfFilter::EndEncode()
         throw;
     }
 
-    m_OutputStream->Flush();
+    // Detach the output stream before flushing it, as it may fail
+    auto outputStream = m_OutputStream;
     m_OutputStream = nullptr;
+    outputStream->Flush();
 }
 
 void PdfFilter::BeginDecode(OutputStream& output, const PdfDictionary* decodeParms)
@@ -477,8 +500,6 @@ void PdfFilter::EndDecode()
 
 void PdfFilter::FailEncodeDecode()
 {
-    if (m_OutputStream != nullptr)
-        m_OutputStream->Flush();
-
+    // NOTE: Don't flush the output stream: it may be the one which failed
     m_OutputStream = nullptr;
 }
-- 
2.43.0


From 7035550f6c4f9f5a8939f5861351dbe8d5375e13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:15 +0000
Subject: [PATCH 011/128] fix: don't forget unsaved changes of objects when
 they are written

---
 src/pdfmm/base/PdfObject.cpp       | 14 +++++++++++++-
 src/pdfmm/base/PdfObject.h         | 10 ++++++++++
 src/pdfmm/base/PdfParserObject.cpp |  3 ++-
 src/pdfmm/base/PdfWriter.cpp       |  2 +-
 4 files changed, 26 insertions(+), 3 deletions(-)

diff --git a/src/pdfmm/base/PdfObject.cpp b/src/pdfmm/base/PdfObject.cpp
index b5bc9a4..4953c3e 100644
--- a/src/pdfmm/base/PdfObject.cpp
+++ b/src/pdfmm/base/PdfObject.cpp
@@ -134,7 +134,7 @@ PdfObjectStream* PdfObject::GetStream()
 // NOTE: Dirty objects are those who are supposed to be serialized
 // or deserialized.
 PdfObject::PdfObject(PdfVariant&& var, const PdfReference& indirectReference, bool isDirty)
-    : m_Variant(std::move(var)), m_IndirectReference(indirectReference), m_IsDirty(isDirty)
+    : m_Variant(std::move(var)), m_IndirectReference(indirectReference), m_IsDirty(isDirty), m_IsChanged(isDirty)
 {
     initObject();
     SetVariantOwner();
@@ -251,7 +251,10 @@ void PdfObject::Write(OutputStreamDevice& device, PdfWriteFlags writeMode,
                 input.CopyTo(output);
             }
 
+            // Compressing the stream doesn't change its content
+            bool wasChanged = m_IsChanged;
             m_Stream->MoveFrom(stream);
+            m_IsChanged = wasChanged;
         }
 
         // Set length if it's not handled by the underlying provider
@@ -277,6 +280,9 @@ void PdfObject::Write(OutputStreamDevice& device, PdfWriteFlags writeMode,
         device.Write("endobj\n");
 
     // After write we ca reset the dirty flag
+    // NOTE: If the object was changed it still differs from the
+    // source it was loaded from, which is the one following
+    // incremental updates and delayed loading are relative to
     const_cast<PdfObject&>(*this).ResetDirty();
 }
 
@@ -506,6 +512,7 @@ void PdfObject::SetDirty()
 void PdfObject::setDirty()
 {
     m_IsDirty = true;
+    m_IsChanged = true;
 }
 
 void PdfObject::resetDirty()
@@ -513,6 +520,11 @@ void PdfObject::resetDirty()
     m_IsDirty = false;
 }
 
+void PdfObject::resetChanged()
+{
+    m_IsChanged = false;
+}
+
 PdfObject::operator const PdfVariant& () const
 {
     DelayedLoad();
diff --git a/src/pdfmm/base/PdfObject.h b/src/pdfmm/base/PdfObject.h
index 5b7e4db..eb7e589 100644
--- a/src/pdfmm/base/PdfObject.h
+++ b/src/pdfmm/base/PdfObject.h
@@ -386,6 +386,13 @@ public:
      */
     inline bool IsDirty() const { return m_IsDirty; }
 
+    /** Unlike the dirty flag this is not reset when the object is written
+     *
+     *  \returns true if the object differs from the source the
+     *           document was loaded from, or it's new
+     */
+    inline bool IsChanged() const { return m_IsChanged; }
+
     /** Get the document of this object.
      *  \return the owner (if it wasn't changed anywhere, creator) of this object
      */
@@ -452,6 +459,8 @@ protected:
 
     void resetDirty();
 
+    void resetChanged();
+
     /** Set the owner of this object, i.e. the PdfIndirectObjectList to which
      *  this object belongs.
      *
@@ -523,6 +532,7 @@ private:
     PdfDocument* m_Document;
     PdfDataContainer* m_Parent;
     bool m_IsDirty; // Indicates if this object was modified after construction
+    mutable bool m_IsChanged = false; // Indicates if this object differs from the source it was loaded from
 
     mutable bool m_IsDelayedLoadDone;
     mutable bool m_IsDelayedLoadStreamDone;
diff --git a/src/pdfmm/base/PdfParserObject.cpp b/src/pdfmm/base/PdfParserObject.cpp
index 14ba48d..56a4c8a 100644
--- a/src/pdfmm/base/PdfParserObject.cpp
+++ b/src/pdfmm/base/PdfParserObject.cpp
@@ -47,6 +47,7 @@ PdfParserObject::PdfParserObject(PdfDocument* doc, const PdfReference& indirectR
 {
     // Parsed objects by definition are initially not dirty
     resetDirty();
+    resetChanged();
     SetDocument(doc);
 
     // We rely heavily on the demand loading infrastructure whether or not
@@ -282,7 +283,7 @@ PdfReference PdfParserObject::readReference(PdfTokenizer& tokenizer)
 
 void PdfParserObject::FreeObjectMemory(bool force)
 {
-    if (!this->IsDirty() || force)
+    if (!this->IsChanged() || force)
     {
         if (IsDelayedLoadDone())
             m_Variant = PdfVariant();
diff --git a/src/pdfmm/base/PdfWriter.cpp b/src/pdfmm/base/PdfWriter.cpp
index f6ba8d3..a42d793 100644
--- a/src/pdfmm/base/PdfWriter.cpp
+++ b/src/pdfmm/base/PdfWriter.cpp
@@ -132,7 +132,7 @@ void PdfWriter::WritePdfObjects(OutputStreamDevice& device, const PdfIndirectObj
 {
     for (PdfObject* obj : objects)
     {
-        if (m_IncrementalUpdate && !obj->IsDirty())
+        if (m_IncrementalUpdate && !obj->IsChanged())
         {
             if (m_rewriteXRefTable)
             {
-- 
2.43.0


From ae3475e0380c8d056f5b579930a2971d1f0eb832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:35 +0000
Subject: [PATCH 012/128] fix: read strings with escaped CR LF and octal codes
 before parentheses

---
 src/pdfmm/base/PdfTokenizer.cpp | 46 ++++++++++++++-------------------
 1 file changed, 19 insertions(+), 27 deletions(-)

diff --git a/src/pdfmm/base/PdfTokenizer.cpp b/src/pdfmm/base/PdfTokenizer.cpp
index 0a7618b..5e7fa16 100644
--- a/src/pdfmm/base/PdfTokenizer.cpp
+++ b/src/pdfmm/base/PdfTokenizer.cpp
@@ -499,6 +499,18 @@ void PdfTokenizer::ReadString(InputStreamDevice& device, PdfVariant& variant, co
     m_charBuffer.clear();
     while (device.Read(ch))
     {
+        if (octEscape && !isOctalChar(ch))
+        {
+            // No octal character anymore, so the octal
+            // sequence must be ended and the character
+            // has to be treated as normal character!
+            m_charBuffer.push_back(octValue);
+            escape = false;
+            octEscape = false;
+            octCharCount = 0;
+            octValue = 0;
+        }
+
         if (escape)
         {
             // Handle escape sequences
@@ -506,33 +518,6 @@ void PdfTokenizer::ReadString(InputStreamDevice& device, PdfVariant& variant, co
             {
                 // Handle octal escape sequences
                 octCharCount++;
-
-                if (!isOctalChar(ch))
-                {
-                    if (ch == ')')
-                    {
-                        // Handle end of string while reading octal code
-                        // NOTE: The octal value is added outside of the loop
-                        break;
-                    }
-
-                    // No octal character anymore,
-                    // so the octal sequence must be ended
-                    // and the character has to be treated as normal character!
-                    m_charBuffer.push_back(octValue);
-
-                    if (ch != '\\')
-                    {
-                        m_charBuffer.push_back(ch);
-                        escape = false;
-                    }
-
-                    octEscape = false;
-                    octCharCount = 0;
-                    octValue = 0;
-                    continue;
-                }
-
                 octValue <<= 3;
                 octValue |= ((ch - '0') & 0x07);
 
@@ -563,6 +548,13 @@ void PdfTokenizer::ReadString(InputStreamDevice& device, PdfVariant& variant, co
                     if (escapedCh != '\0')
                         m_charBuffer.push_back(escapedCh);
                 }
+                else if (ch == '\r')
+                {
+                    // CR LF is a single end of line marker
+                    char next;
+                    if (device.Peek(next) && next == '\n')
+                        (void)device.ReadChar();
+                }
 
                 escape = false;
             }
-- 
2.43.0


From 033ed8cbf41d5e5033434bba212c4e6d6d468da0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:35 +0000
Subject: [PATCH 013/128] fix: read numbers with a plus sign

---
 src/pdfmm/base/PdfTokenizer.cpp | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/pdfmm/base/PdfTokenizer.cpp b/src/pdfmm/base/PdfTokenizer.cpp
index 5e7fa16..cef868a 100644
--- a/src/pdfmm/base/PdfTokenizer.cpp
+++ b/src/pdfmm/base/PdfTokenizer.cpp
@@ -24,6 +24,7 @@ using namespace mm;
 static char getEscapedCharacter(char ch);
 static void readHexString(InputStreamDevice& device, charbuff& buffer);
 static bool isOctalChar(char ch);
+static string_view trimPlusSign(const string_view& token);
 
 PdfTokenizer::PdfTokenizer(bool readReferences)
     : PdfTokenizer(std::make_shared<charbuff>(BufferSize), readReferences)
@@ -197,7 +198,8 @@ int64_t PdfTokenizer::ReadNextNumber(InputStreamDevice& device)
         PDFMM_RAISE_ERROR_INFO(PdfErrorCode::UnexpectedEOF, "Expected number");
 
     int64_t num;
-    if (std::from_chars(token.data(), token.data() + token.size(), num).ec != std::errc())
+    string_view number = trimPlusSign(token);
+    if (std::from_chars(number.data(), number.data() + number.size(), num).ec != std::errc())
     {
         // Don't consume the token
         this->EnqueueToken(token, tokenType);
@@ -282,7 +284,8 @@ PdfTokenizer::PdfLiteralDataType PdfTokenizer::DetermineDataType(InputStreamDevi
             if (dataType == PdfLiteralDataType::Real)
             {
                 double val;
-                if (std::from_chars(token.data(), token.data() + token.length(), val, chars_format::fixed).ec != std::errc())
+                string_view number = trimPlusSign(token);
+                if (std::from_chars(number.data(), number.data() + number.length(), val, chars_format::fixed).ec != std::errc())
                 {
                     // Don't consume the token
                     this->EnqueueToken(token, tokenType);
@@ -295,7 +298,8 @@ PdfTokenizer::PdfLiteralDataType PdfTokenizer::DetermineDataType(InputStreamDevi
             else if (dataType == PdfLiteralDataType::Number)
             {
                 int64_t num;
-                if (std::from_chars(token.data(), token.data() + token.size(), num).ec != std::errc())
+                string_view number = trimPlusSign(token);
+                if (std::from_chars(number.data(), number.data() + number.size(), num).ec != std::errc())
                 {
                     // Don't consume the token
                     this->EnqueueToken(token, tokenType);
@@ -783,6 +787,12 @@ void readHexString(InputStreamDevice& device, charbuff& buffer)
         buffer.push_back('0');
 }
 
+// The sign of a number may be '+', which is not supported by from_chars
+string_view trimPlusSign(const string_view& token)
+{
+    return token.length() > 1 && token[0] == '+' && token[1] != '-' ? token.substr(1) : token;
+}
+
 bool isOctalChar(char ch)
 {
     switch (ch)
-- 
2.43.0


From 0d90fdd049de1e0b443ded18ed4c8575ff3bcad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:42 +0000
Subject: [PATCH 014/128] fix: keep the character after a meaningless backslash
 in strings

---
 src/pdfmm/base/PdfTokenizer.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/pdfmm/base/PdfTokenizer.cpp b/src/pdfmm/base/PdfTokenizer.cpp
index cef868a..e478343 100644
--- a/src/pdfmm/base/PdfTokenizer.cpp
+++ b/src/pdfmm/base/PdfTokenizer.cpp
@@ -548,9 +548,7 @@ void PdfTokenizer::ReadString(InputStreamDevice& device, PdfVariant& variant, co
                 if (ch != '\n' && ch != '\r')
                 {
                     // Handle plain escape sequences
-                    char escapedCh = getEscapedCharacter(ch);
-                    if (escapedCh != '\0')
-                        m_charBuffer.push_back(escapedCh);
+                    m_charBuffer.push_back(getEscapedCharacter(ch));
                 }
                 else if (ch == '\r')
                 {
@@ -761,7 +759,8 @@ char getEscapedCharacter(char ch)
         case '\\':
             return '\\';
         default:
-            return '\0';
+            // The backslash before other characters shall be ignored
+            return ch;
     }
 }
 
-- 
2.43.0


From a73c0cfde9d6972971cecc8326e731cfe49425c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:36 +0000
Subject: [PATCH 015/128] fix: load a stream again after freeing its memory
 when its length object was collected

---
 src/pdfmm/base/PdfParserObject.cpp | 18 +++++++++++++-----
 src/pdfmm/base/PdfParserObject.h   |  1 +
 2 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/pdfmm/base/PdfParserObject.cpp b/src/pdfmm/base/PdfParserObject.cpp
index 56a4c8a..9ed7844 100644
--- a/src/pdfmm/base/PdfParserObject.cpp
+++ b/src/pdfmm/base/PdfParserObject.cpp
@@ -43,7 +43,8 @@ PdfParserObject::PdfParserObject(PdfDocument* doc, const PdfReference& indirectR
     m_IsTrailer(false),
     m_Offset(offset < 0 ? device.GetPosition() : offset),
     m_HasStream(false),
-    m_StreamOffset(0)
+    m_StreamOffset(0),
+    m_StreamLength(-1)
 {
     // Parsed objects by definition are initially not dirty
     resetDirty();
@@ -163,12 +164,17 @@ void PdfParserObject::parseStream()
 {
     PDFMM_ASSERT(IsDelayedLoadDone());
 
-    int64_t size = -1;
+    int64_t size = m_StreamLength;
     char ch;
 
-    auto& lengthObj = this->m_Variant.GetDictionary().MustFindKey(PdfName::KeyLength);
-    if (!lengthObj.TryGetNumber(size))
-        PDFMM_RAISE_ERROR(PdfErrorCode::InvalidStreamLength);
+    // NOTE: If the stream is loaded again after freeing its memory an
+    // indirect /Length may be gone, since it's not needed when saving
+    if (size < 0)
+    {
+        auto& lengthObj = this->m_Variant.GetDictionary().MustFindKey(PdfName::KeyLength);
+        if (!lengthObj.TryGetNumber(size))
+            PDFMM_RAISE_ERROR(PdfErrorCode::InvalidStreamLength);
+    }
 
     m_device->Seek(m_StreamOffset);
 
@@ -243,6 +249,8 @@ ReadStream:
     {
         getOrCreateStream().InitData(*m_device, static_cast<ssize_t>(size), PdfFilterFactory::CreateFilterList(*this));
     }
+
+    m_StreamLength = size;
 }
 
 void PdfParserObject::checkReference(PdfTokenizer& tokenizer)
diff --git a/src/pdfmm/base/PdfParserObject.h b/src/pdfmm/base/PdfParserObject.h
index 0fee63b..8adf0bb 100644
--- a/src/pdfmm/base/PdfParserObject.h
+++ b/src/pdfmm/base/PdfParserObject.h
@@ -117,6 +117,7 @@ private:
     size_t m_Offset;
     bool m_HasStream;
     size_t m_StreamOffset;
+    int64_t m_StreamLength;
 };
 
 };
-- 
2.43.0


From fc568e5d14763bef0ec706d0e05292264f2cce65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:40 +0000
Subject: [PATCH 016/128] fix: don't recurse along references when collecting
 garbage

---
 src/pdfmm/base/PdfIndirectObjectList.cpp | 74 +++++++++++++-----------
 1 file changed, 40 insertions(+), 34 deletions(-)

diff --git a/src/pdfmm/base/PdfIndirectObjectList.cpp b/src/pdfmm/base/PdfIndirectObjectList.cpp
index 823f1e6..34a5bf7 100644
--- a/src/pdfmm/base/PdfIndirectObjectList.cpp
+++ b/src/pdfmm/base/PdfIndirectObjectList.cpp
@@ -371,46 +371,52 @@ void PdfIndirectObjectList::CollectGarbage()
 
 void PdfIndirectObjectList::visitObject(const PdfObject& obj, unordered_set<PdfReference>& referencedObjects)
 {
-    if (obj.IsIndirect())
+    // NOTE: Don't visit recursively, chains of references can be
+    // as long as the number of objects
+    vector<const PdfObject*> objectsToVisit{ &obj };
+    while (!objectsToVisit.empty())
     {
-        // Try to check if the object has been already visited
-        auto inserted = referencedObjects.insert(obj.GetIndirectReference());
-        if (!inserted.second)
+        auto& curr = *objectsToVisit.back();
+        objectsToVisit.pop_back();
+        if (curr.IsIndirect())
         {
-            // The object has been visited, just return
-            return;
+            // Try to check if the object has been already visited
+            auto inserted = referencedObjects.insert(curr.GetIndirectReference());
+            if (!inserted.second)
+            {
+                // The object has been visited, just continue
+                continue;
+            }
         }
-    }
 
-    switch (obj.GetDataType())
-    {
-        case PdfDataType::Reference:
+        switch (curr.GetDataType())
         {
-            auto childObj = GetObject(obj.GetReference());
-            if (childObj == nullptr)
+            case PdfDataType::Reference:
+            {
+                auto childObj = GetObject(curr.GetReference());
+                if (childObj != nullptr)
+                    objectsToVisit.push_back(childObj);
                 break;
-
-            visitObject(*childObj, referencedObjects);
-            break;
-        }
-        case PdfDataType::Array:
-        {
-            auto& arr = obj.GetArray();
-            for (auto& child : arr)
-                visitObject(child, referencedObjects);
-            break;
-        }
-        case PdfDataType::Dictionary:
-        {
-            auto& dict = obj.GetDictionary();
-            for (auto& pair : dict)
-                visitObject(pair.second, referencedObjects);
-            break;
-        }
-        default:
-        {
-            // Nothing to do
-            break;
+            }
+            case PdfDataType::Array:
+            {
+                auto& arr = curr.GetArray();
+                for (auto& child : arr)
+                    objectsToVisit.push_back(&child);
+                break;
+            }
+            case PdfDataType::Dictionary:
+            {
+                auto& dict = curr.GetDictionary();
+                for (auto& pair : dict)
+                    objectsToVisit.push_back(&pair.second);
+                break;
+            }
+            default:
+            {
+                // Nothing to do
+                break;
+            }
         }
     }
 }
-- 
2.43.0


From 90a301b40a0f9dc7af1241d28952d83e0a4365c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:40 +0000
Subject: [PATCH 017/128] fix: forget free numbers and object streams when
 clearing a document

---
 src/pdfmm/base/PdfIndirectObjectList.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pdfmm/base/PdfIndirectObjectList.cpp b/src/pdfmm/base/PdfIndirectObjectList.cpp
index 34a5bf7..caf5582 100644
--- a/src/pdfmm/base/PdfIndirectObjectList.cpp
+++ b/src/pdfmm/base/PdfIndirectObjectList.cpp
@@ -87,6 +87,7 @@ PdfIndirectObjectList::PdfIndirectObjectList(PdfDocument& document, const PdfInd
     m_ObjectCount(rhs.m_ObjectCount),
     m_FreeObjects(rhs.m_FreeObjects),
     m_unavailableObjects(rhs.m_unavailableObjects),
+    m_objectStreams(rhs.m_objectStreams),
     m_StreamFactory(nullptr)
 {
     // Copy all objects from source, resetting parent and indirect reference
@@ -110,6 +111,9 @@ void PdfIndirectObjectList::Clear()
         delete obj;
 
     m_Objects.clear();
+    m_FreeObjects.clear();
+    m_unavailableObjects.clear();
+    m_objectStreams.clear();
     m_ObjectCount = 1;
     m_StreamFactory = nullptr;
 }
-- 
2.43.0


From 7ea43093a8bbabf88f586dc148514d9de8c8ea42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:40 +0000
Subject: [PATCH 018/128] fix: replace only the exact object and keep the
 document of the new one

---
 src/pdfmm/base/PdfIndirectObjectList.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pdfmm/base/PdfIndirectObjectList.cpp b/src/pdfmm/base/PdfIndirectObjectList.cpp
index caf5582..79ab493 100644
--- a/src/pdfmm/base/PdfIndirectObjectList.cpp
+++ b/src/pdfmm/base/PdfIndirectObjectList.cpp
@@ -161,13 +161,15 @@ unique_ptr<PdfObject> PdfIndirectObjectList::ReplaceObject(const PdfReference& r
         PDFMM_RAISE_ERROR_INFO(PdfErrorCode::InvalidHandle, "Object must be non null");
 
     auto it = std::lower_bound(m_Objects.begin(), m_Objects.end(), ref, CompareReference);
-    if (it == m_Objects.end())
+    if (it == m_Objects.end() || (*it)->GetIndirectReference() != ref)
         PDFMM_RAISE_ERROR_INFO(PdfErrorCode::InvalidHandle, "Unable to find object with reference {}", ref.ToString());
 
     auto node = m_Objects.extract(it);
     unique_ptr<PdfObject> ret(node.value());
     node.value() = obj;
     obj->SetIndirectReference(ref);
+    obj->SetDocument(m_Document);
+    obj->setDirty();
     pushObject(node, obj);
     return ret;
 }
-- 
2.43.0


From 1bb7abbd10749a24158598889298777da4bd5696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:40 +0000
Subject: [PATCH 019/128] fix: don't truncate object numbers to 16 bits

---
 src/pdfmm/base/PdfIndirectObjectList.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pdfmm/base/PdfIndirectObjectList.cpp b/src/pdfmm/base/PdfIndirectObjectList.cpp
index 79ab493..c71e571 100644
--- a/src/pdfmm/base/PdfIndirectObjectList.cpp
+++ b/src/pdfmm/base/PdfIndirectObjectList.cpp
@@ -198,7 +198,7 @@ PdfReference PdfIndirectObjectList::getNextFreeObject()
     }
 
     // If no free objects are available, create a new object with generation 0
-    uint16_t nextObjectNum = static_cast<uint16_t>(m_ObjectCount);
+    uint32_t nextObjectNum = m_ObjectCount;
     while (true)
     {
         if ((size_t)(nextObjectNum + 1) == MaxReserveSize)
-- 
2.43.0


From c3ace760a44be8a6a52421a6214b910b4e321b58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:40 +0000
Subject: [PATCH 020/128] fix: never reuse numbers that reached the maximum
 generation

---
 src/pdfmm/base/PdfIndirectObjectList.cpp | 3 ++-
 src/pdfmm/base/PdfWriter.cpp             | 6 ++++++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/pdfmm/base/PdfIndirectObjectList.cpp b/src/pdfmm/base/PdfIndirectObjectList.cpp
index c71e571..2aa071a 100644
--- a/src/pdfmm/base/PdfIndirectObjectList.cpp
+++ b/src/pdfmm/base/PdfIndirectObjectList.cpp
@@ -280,7 +280,8 @@ int32_t PdfIndirectObjectList::tryAddFreeObject(uint32_t objnum, uint32_t gennum
     // NOTE: gennum is uint32 to accomodate overflows from callers
     if (gennum >= MaxXRefGenerationNum)
     {
-        m_unavailableObjects.insert(gennum);
+        m_unavailableObjects.insert(objnum);
+        TryIncrementObjectCount(PdfReference(objnum, 0));
         return -1;
     }
 
diff --git a/src/pdfmm/base/PdfWriter.cpp b/src/pdfmm/base/PdfWriter.cpp
index a42d793..b0bc64c 100644
--- a/src/pdfmm/base/PdfWriter.cpp
+++ b/src/pdfmm/base/PdfWriter.cpp
@@ -180,6 +180,12 @@ void PdfWriter::WritePdfObjects(OutputStreamDevice& device, const PdfIndirectObj
     {
         xref.AddFreeObject(freeObjectRef);
     }
+
+    // Numbers that reached the maximum generation stay unavailable
+    for (uint32_t objnum : objects.m_unavailableObjects)
+    {
+        xref.AddFreeObject(PdfReference(objnum, 65535));
+    }
 }
 
 void PdfWriter::FillTrailerObject(PdfObject& trailer, size_t size, bool onlySizeKey) const
-- 
2.43.0


From 5b261cd115b404a4661f1e71f4a6d983e03b2293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:39 +0000
Subject: [PATCH 021/128] fix: load files with object streams also when not
 loading on demand

---
 src/pdfmm/base/PdfParser.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pdfmm/base/PdfParser.cpp b/src/pdfmm/base/PdfParser.cpp
index a74b5e9..3f99e10 100644
--- a/src/pdfmm/base/PdfParser.cpp
+++ b/src/pdfmm/base/PdfParser.cpp
@@ -803,7 +803,9 @@ void PdfParser::ReadObjectsInternal(InputStreamDevice& device)
         for (auto objToLoad : *m_Objects)
         {
             auto obj = dynamic_cast<PdfParserObject*>(objToLoad);
-            obj->ParseStream();
+            // NOTE: Objects from object streams are not parser objects
+            if (obj != nullptr)
+                obj->ParseStream();
         }
     }
 
-- 
2.43.0


From 06c567fb784483d89c7ca70de40f0f793c115425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:09 +0000
Subject: [PATCH 022/128] fix: report errors when the last bytes of a saved
 file can't be written

---
 src/pdfmm/base/PdfMemDocument.cpp  | 6 ++++++
 src/pdfmm/base/PdfStreamDevice.cpp | 5 ++++-
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/pdfmm/base/PdfMemDocument.cpp b/src/pdfmm/base/PdfMemDocument.cpp
index 9aa21f3..d4c6a52 100644
--- a/src/pdfmm/base/PdfMemDocument.cpp
+++ b/src/pdfmm/base/PdfMemDocument.cpp
@@ -232,6 +232,9 @@ void PdfMemDocument::Save(const string_view& filename, PdfSaveOptions options)
 {
     FileStreamDevice device(filename, FileMode::Create);
     this->Save(device, options);
+    // NOTE: The stream may still buffer data, ensure errors are reported
+    device.Flush();
+    device.Close();
 }
 
 void PdfMemDocument::Save(OutputStreamDevice& device, PdfSaveOptions opts)
@@ -260,6 +263,9 @@ void PdfMemDocument::SaveUpdate(const string_view& filename, PdfSaveOptions opts
 {
     FileStreamDevice device(filename, FileMode::Append);
     this->SaveUpdate(device, opts);
+    // NOTE: The stream may still buffer data, ensure errors are reported
+    device.Flush();
+    device.Close();
 }
 
 void PdfMemDocument::SaveUpdate(OutputStreamDevice& device, PdfSaveOptions opts)
diff --git a/src/pdfmm/base/PdfStreamDevice.cpp b/src/pdfmm/base/PdfStreamDevice.cpp
index 6f3fc06..d32c1d1 100644
--- a/src/pdfmm/base/PdfStreamDevice.cpp
+++ b/src/pdfmm/base/PdfStreamDevice.cpp
@@ -352,7 +352,10 @@ FileStreamDevice::FileStreamDevice(const string_view& filepath, FileMode mode, D
 
 void FileStreamDevice::close()
 {
-    dynamic_cast<fstream&>(GetStream()).close();
+    auto& stream = dynamic_cast<fstream&>(GetStream());
+    stream.close();
+    if (stream.fail())
+        PDFMM_RAISE_ERROR_INFO(PdfErrorCode::InvalidDeviceOperation, "Failed to close the file");
 }
 
 fstream* FileStreamDevice::getFileStream(const string_view& filename, FileMode mode, DeviceAccess access)
-- 
2.43.0


From fed256c7d2c56a24e3af50ed069a1bcfe51808ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:58 +0000
Subject: [PATCH 023/128] fix: don't keep the recursion depth after refusing
 too deep recursions

---
 src/pdfmm/private/PdfDeclarationsPrivate.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pdfmm/private/PdfDeclarationsPrivate.cpp b/src/pdfmm/private/PdfDeclarationsPrivate.cpp
index e90393b..f9f1823 100644
--- a/src/pdfmm/private/PdfDeclarationsPrivate.cpp
+++ b/src/pdfmm/private/PdfDeclarationsPrivate.cpp
@@ -1228,6 +1228,8 @@ void utls::RecursionGuard::Enter()
         // /Kids entries that loop back to self or parent
         // deeply nested Dictionary or Array objects (possible with lots of [[[[[[[[]]]]]]]] brackets)
         // mutually recursive loops involving several objects are possible
+        // NOTE: Exit() won't be called, as the guard won't be constructed
+        s_recursionDepth--;
         PDFMM_RAISE_ERROR_INFO(PdfErrorCode::InvalidXRef, "Stack overflow");
     }
 }
-- 
2.43.0


From 8ba1b4dca2147802175d5b340d38fee0393a48c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:58 +0000
Subject: [PATCH 024/128] fix: report loops in the chain of parents instead of
 overflowing the stack

---
 src/pdfmm/base/PdfDictionary.cpp | 31 ++++++++++++++-----------------
 1 file changed, 14 insertions(+), 17 deletions(-)

diff --git a/src/pdfmm/base/PdfDictionary.cpp b/src/pdfmm/base/PdfDictionary.cpp
index 582fd24..783244f 100644
--- a/src/pdfmm/base/PdfDictionary.cpp
+++ b/src/pdfmm/base/PdfDictionary.cpp
@@ -147,26 +147,23 @@ PdfObject* PdfDictionary::findKey(const string_view& key) const
 
 PdfObject* PdfDictionary::findKeyParent(const string_view& key) const
 {
-    PdfObject* obj = findKey(key);
-    if (obj == nullptr)
+    // Prevent endless loops if the Parent chain contains a loop
+    constexpr unsigned maxDepth = 1000;
+    const PdfDictionary* dict = this;
+    for (unsigned depth = 0; depth < maxDepth; depth++)
     {
-        PdfObject* parent = findKey("Parent");
-        if (parent == nullptr)
-        {
+        PdfObject* obj = dict->findKey(key);
+        if (obj != nullptr)
+            return obj;
+
+        PdfObject* parent = dict->findKey("Parent");
+        if (parent == nullptr || !parent->IsDictionary())
             return nullptr;
-        }
-        else
-        {
-            if (parent->IsDictionary())
-                return parent->GetDictionary().findKeyParent(key);
-            else
-                return nullptr;
-        }
-    }
-    else
-    {
-        return obj;
+
+        dict = &parent->GetDictionary();
     }
+
+    PDFMM_RAISE_ERROR_INFO(PdfErrorCode::BrokenFile, "Loop in Parent chain");
 }
 
 bool PdfDictionary::HasKey(const string_view& key) const
-- 
2.43.0


From da37d23ff756539fdc0ea708d73dc2207b719113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:58 +0000
Subject: [PATCH 025/128] fix: keep outlines linked when adding to loaded or
 imported ones

---
 src/pdfmm/base/PdfOutlines.cpp | 105 ++++++++++++++++++++-------------
 src/pdfmm/base/PdfOutlines.h   |   3 +
 2 files changed, 67 insertions(+), 41 deletions(-)

diff --git a/src/pdfmm/base/PdfOutlines.cpp b/src/pdfmm/base/PdfOutlines.cpp
index 6df8ed7..d4b9e49 100644
--- a/src/pdfmm/base/PdfOutlines.cpp
+++ b/src/pdfmm/base/PdfOutlines.cpp
@@ -47,18 +47,40 @@ PdfOutlineItem::PdfOutlineItem(PdfObject& obj, PdfOutlineItem* parentOutline, Pd
     m_Next(nullptr), m_First(nullptr), m_Last(nullptr), m_destination(nullptr), m_action(nullptr)
 {
     utls::RecursionGuard guard;
-    PdfReference first, next;
-
-    if (this->GetObject().GetDictionary().HasKey("First"))
+    try
     {
-        first = this->GetObject().GetDictionary().GetKey("First")->GetReference();
-        m_First = new PdfOutlineItem(obj.GetDocument()->GetObjects().MustGetObject(first), this, nullptr);
-    }
+        auto& objects = obj.GetDocument()->GetObjects();
+        if (this->GetObject().GetDictionary().HasKey("First"))
+        {
+            auto first = this->GetObject().GetDictionary().GetKey("First")->GetReference();
+            m_First = new PdfOutlineItem(objects.MustGetObject(first), this, nullptr);
 
-    if (this->GetObject().GetDictionary().HasKey("Next"))
+            m_Last = m_First;
+            while (m_Last->m_Next != nullptr)
+                m_Last = m_Last->m_Next;
+        }
+
+        // The first item of a level loads also all the following ones
+        if (previous != nullptr)
+            return;
+
+        set<PdfReference> visited;
+        visited.insert(this->GetObject().GetIndirectReference());
+        PdfOutlineItem* item = this;
+        while (item->GetObject().GetDictionary().HasKey("Next"))
+        {
+            auto next = item->GetObject().GetDictionary().GetKey("Next")->GetReference();
+            if (!visited.insert(next).second)
+                PDFMM_RAISE_ERROR_INFO(PdfErrorCode::InvalidXRef, "Loop in outline items");
+
+            item->m_Next = new PdfOutlineItem(objects.MustGetObject(next), parentOutline, item);
+            item = item->m_Next;
+        }
+    }
+    catch (...)
     {
-        next = this->GetObject().GetDictionary().GetKey("Next")->GetReference();
-        m_Next = new PdfOutlineItem(obj.GetDocument()->GetObjects().MustGetObject(next), parentOutline, this);
+        deleteItems();
+        throw;
     }
 }
 
@@ -70,8 +92,22 @@ PdfOutlineItem::PdfOutlineItem(PdfDocument& doc)
 
 PdfOutlineItem::~PdfOutlineItem()
 {
-    delete m_Next;
+    deleteItems();
+}
+
+void PdfOutlineItem::deleteItems()
+{
+    // Delete the following items in a loop, as there can be many
+    while (m_Next != nullptr)
+    {
+        auto next = m_Next;
+        m_Next = next->m_Next;
+        next->m_Next = nullptr;
+        delete next;
+    }
+
     delete m_First;
+    m_First = nullptr;
 }
 
 PdfOutlineItem* PdfOutlineItem::CreateChild(const PdfString& title, const shared_ptr<PdfDestination>& dest)
@@ -88,39 +124,20 @@ void PdfOutlineItem::InsertChild(PdfOutlineItem* item)
 
 void PdfOutlineItem::InsertChildInternal(PdfOutlineItem* item, bool checkParent)
 {
-    PdfOutlineItem* itemToCheckParent = item;
-    PdfOutlineItem* root = nullptr;
-    PdfOutlineItem* rootOfThis = nullptr;
-
-    if (itemToCheckParent == nullptr)
+    if (item == nullptr)
         return;
 
     if (checkParent)
     {
-        while (itemToCheckParent != nullptr)
-        {
-            while (itemToCheckParent->GetParentOutline())
-                itemToCheckParent = itemToCheckParent->GetParentOutline();
-
-            if (itemToCheckParent == item) // item can't have a parent
-            {
-                root = item; // needed later, "root" can mean "standalone" here
-                break;         // for performance in standalone or doc-merge case
-            }
-
-            if (root == nullptr)
-            {
-                rootOfThis = itemToCheckParent;
-                itemToCheckParent = nullptr;
-            }
-            else
-            {
-                root = itemToCheckParent;
-                itemToCheckParent = this;
-            }
-        }
+        PdfOutlineItem* root = item;
+        while (root->GetParentOutline() != nullptr)
+            root = root->GetParentOutline();
 
-        if (root == rootOfThis) // later nullptr if check skipped for performance
+        PdfOutlineItem* rootOfThis = this;
+        while (rootOfThis->GetParentOutline() != nullptr)
+            rootOfThis = rootOfThis->GetParentOutline();
+
+        if (root == rootOfThis)
             PDFMM_RAISE_ERROR(PdfErrorCode::OutlineItemAlreadyPresent);
     }
 
@@ -130,10 +147,16 @@ void PdfOutlineItem::InsertChildInternal(PdfOutlineItem* item, bool checkParent)
         item->SetPrevious(m_Last);
     }
 
-    m_Last = item;
-
     if (m_First == nullptr)
-        m_First = m_Last;
+        m_First = item;
+
+    // The item may come with others following it
+    for (; item != nullptr; item = item->m_Next)
+    {
+        item->m_ParentOutline = this;
+        item->GetObject().GetDictionary().AddKey("Parent", this->GetObject().GetIndirectReference());
+        m_Last = item;
+    }
 
     this->GetObject().GetDictionary().AddKey("First", m_First->GetObject().GetIndirectReference());
     this->GetObject().GetDictionary().AddKey("Last", m_Last->GetObject().GetIndirectReference());
diff --git a/src/pdfmm/base/PdfOutlines.h b/src/pdfmm/base/PdfOutlines.h
index 1db0e43..4a947da 100644
--- a/src/pdfmm/base/PdfOutlines.h
+++ b/src/pdfmm/base/PdfOutlines.h
@@ -195,6 +195,9 @@ private:
 
     void InsertChildInternal(PdfOutlineItem* item, bool checkParent);
 
+    // Delete all the children and the items following this one
+    void deleteItems();
+
 protected:
     /** Create a new PdfOutlineItem dictionary
      *  \param parent parent vector of objects
-- 
2.43.0


From 779506a48c603f25db0d84cd46e70c38fb1f70ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:58 +0000
Subject: [PATCH 026/128] fix: insert the page of the given document, with
 numbers that can't overlap, also without own outlines

---
 src/pdfmm/base/PdfDocument.cpp | 107 ++++++++++++++-------------------
 src/pdfmm/base/PdfDocument.h   |   9 ++-
 2 files changed, 53 insertions(+), 63 deletions(-)

diff --git a/src/pdfmm/base/PdfDocument.cpp b/src/pdfmm/base/PdfDocument.cpp
index 2b9d3c1..57ffb7e 100644
--- a/src/pdfmm/base/PdfDocument.cpp
+++ b/src/pdfmm/base/PdfDocument.cpp
@@ -114,21 +114,24 @@ void PdfDocument::AppendDocumentPages(const PdfDocument& doc)
     append(doc, true);
 }
 
-void PdfDocument::append(const PdfDocument& doc, bool appendAll)
+unsigned PdfDocument::appendObjects(const PdfDocument& doc)
 {
-    unsigned difference = static_cast<unsigned>(m_Objects.GetSize() + m_Objects.GetFreeObjects().size());
+    // All the numbers given out so far, both to objects and to free
+    // entries, are lower than the object count: offset the appended
+    // numbers so they start from it and can't overlap
+    unsigned difference = m_Objects.GetObjectCount() - 1;
 
-    // Because GetNextObject uses m_ObjectCount instead 
-    // of m_Objects.GetSize() + m_Objects.GetFreeObjects().size() + 1
-    // make sure the free objects are already present before appending to
-    // prevent overlapping obj-numbers
+    // NOTE: The document may be appended to itself: take
+    // the objects as they are before beginning to append
+    vector<PdfReference> freeObjects(doc.GetObjects().GetFreeObjects().begin(), doc.GetObjects().GetFreeObjects().end());
+    vector<PdfObject*> objects(doc.GetObjects().begin(), doc.GetObjects().end());
 
     // create all free objects again, to have a clean free object list
-    for (auto& ref : doc.GetObjects().GetFreeObjects())
+    for (auto& ref : freeObjects)
         m_Objects.AddFreeObject(PdfReference(ref.ObjectNumber() + difference, ref.GenerationNumber()));
 
     // append all objects first and fix their references
-    for (auto& obj : doc.GetObjects())
+    for (auto obj : objects)
     {
         PdfReference ref(static_cast<uint32_t>(obj->GetIndirectReference().ObjectNumber() + difference), obj->GetIndirectReference().GenerationNumber());
         auto newObj = new PdfObject(PdfDictionary());
@@ -142,6 +145,15 @@ void PdfDocument::append(const PdfDocument& doc, bool appendAll)
         fixObjectReferences(*newObj, difference);
     }
 
+    return difference;
+}
+
+unsigned PdfDocument::append(const PdfDocument& doc, bool appendAll)
+{
+    // The pages to append, before beginning to append
+    unsigned pageCount = doc.GetPages().GetCount();
+    unsigned difference = appendObjects(doc);
+
     if (appendAll)
     {
         const PdfName inheritableAttributes[] = {
@@ -153,7 +165,7 @@ void PdfDocument::append(const PdfDocument& doc, bool appendAll)
         };
 
         // append all pages now to our page tree
-        for (unsigned i = 0; i < doc.GetPages().GetCount(); i++)
+        for (unsigned i = 0; i < pageCount; i++)
         {
             auto& page = doc.GetPages().GetPageAt(i);
             auto& obj = m_Objects.MustGetObject(PdfReference(page.GetObject().GetIndirectReference().ObjectNumber()
@@ -180,55 +192,38 @@ void PdfDocument::append(const PdfDocument& doc, bool appendAll)
         }
 
         // append all outlines
-        PdfOutlineItem* root = this->GetOutlines();
-        PdfOutlines* appendRoot = const_cast<PdfDocument&>(doc).GetOutlines();
-        if (appendRoot && appendRoot->First())
-        {
-            // only append outlines if appended document has outlines
-            while (root && root->Next())
-                root = root->Next();
-
-            PdfReference ref(appendRoot->First()->GetObject().GetIndirectReference().ObjectNumber()
-                + difference, appendRoot->First()->GetObject().GetIndirectReference().GenerationNumber());
-            root->InsertChild(new PdfOutlines(m_Objects.MustGetObject(ref)));
-        }
+        appendOutlines(doc, difference);
     }
 
     // TODO: merge name trees
     // ToDictionary -> then iteratate over all keys and add them to the new one
+
+    return difference;
 }
 
-void PdfDocument::InsertDocumentPageAt(unsigned atIndex, const PdfDocument& doc, unsigned pageIndex)
+void PdfDocument::appendOutlines(const PdfDocument& doc, unsigned difference)
 {
-    // copy of PdfDocument::Append, only restricts which page to add
-    unsigned difference = static_cast<unsigned>(m_Objects.GetSize() + m_Objects.GetFreeObjects().size());
-
-
-    // Because GetNextObject uses m_ObjectCount instead 
-    // of m_Objects.GetSize() + m_Objects.GetFreeObjects().size() + 1
-    // make sure the free objects are already present before appending to
-    // prevent overlapping obj-numbers
-
-    // create all free objects again, to have a clean free object list
-    for (auto& freeObj : GetObjects().GetFreeObjects())
+    PdfOutlines* appendRoot = const_cast<PdfDocument&>(doc).GetOutlines();
+    if (appendRoot == nullptr || appendRoot->First() == nullptr)
     {
-        m_Objects.AddFreeObject(PdfReference(freeObj.ObjectNumber() + difference, freeObj.GenerationNumber()));
+        // only append outlines if appended document has outlines
+        return;
     }
 
-    // append all objects first and fix their references
-    for (auto& obj : GetObjects())
-    {
-        PdfReference ref(static_cast<uint32_t>(obj->GetIndirectReference().ObjectNumber() + difference), obj->GetIndirectReference().GenerationNumber());
-        auto newObj = new PdfObject(PdfDictionary());
-        newObj->setDirty();
-        newObj->SetIndirectReference(ref);
-        m_Objects.PushObject(newObj);
-        *newObj = *obj;
+    PdfReference ref(appendRoot->First()->GetObject().GetIndirectReference().ObjectNumber()
+        + difference, appendRoot->First()->GetObject().GetIndirectReference().GenerationNumber());
+    PdfOutlineItem* root = &GetOrCreateOutlines();
+    while (root->Next())
+        root = root->Next();
 
-        mm::LogMessage(PdfLogSeverity::Information, "Fixing references in {} {} R by {}",
-            newObj->GetIndirectReference().ObjectNumber(), newObj->GetIndirectReference().GenerationNumber(), difference);
-        fixObjectReferences(*newObj, difference);
-    }
+    root->InsertChild(new PdfOutlines(m_Objects.MustGetObject(ref)));
+}
+
+void PdfDocument::InsertDocumentPageAt(unsigned atIndex, const PdfDocument& doc, unsigned pageIndex)
+{
+    // copy of PdfDocument::Append, only restricts which page to add
+    unsigned pageCount = doc.GetPages().GetCount();
+    unsigned difference = appendObjects(doc);
 
     const PdfName inheritableAttributes[] = {
         PdfName("Resources"),
@@ -239,7 +234,7 @@ void PdfDocument::InsertDocumentPageAt(unsigned atIndex, const PdfDocument& doc,
     };
 
     // append all pages now to our page tree
-    for (unsigned i = 0; i < doc.GetPages().GetCount(); i++)
+    for (unsigned i = 0; i < pageCount; i++)
     {
         if (i != pageIndex)
             continue;
@@ -269,18 +264,7 @@ void PdfDocument::InsertDocumentPageAt(unsigned atIndex, const PdfDocument& doc,
     }
 
     // append all outlines
-    PdfOutlineItem* root = this->GetOutlines();
-    PdfOutlines* appendRoot = const_cast<PdfDocument&>(doc).GetOutlines();
-    if (appendRoot != nullptr && appendRoot->First())
-    {
-        // only append outlines if appended document has outlines
-        while (root != nullptr && root->Next())
-            root = root->Next();
-
-        PdfReference ref(appendRoot->First()->GetObject().GetIndirectReference().ObjectNumber()
-            + difference, appendRoot->First()->GetObject().GetIndirectReference().GenerationNumber());
-        root->InsertChild(new PdfOutlines(m_Objects.MustGetObject(ref)));
-    }
+    appendOutlines(doc, difference);
 
     // TODO: merge name trees
     // ToDictionary -> then iteratate over all keys and add them to the new one
@@ -350,8 +334,7 @@ PdfRect PdfDocument::FillXObjectFromPage(PdfXObjectForm& xobj, const PdfPage& pa
     auto& sourceDoc = page.GetDocument();
     if (this != &sourceDoc)
     {
-        difference = static_cast<unsigned>(m_Objects.GetSize() + m_Objects.GetFreeObjects().size());
-        append(sourceDoc, false);
+        difference = append(sourceDoc, false);
     }
 
     // TODO: remove unused objects: page, ...
diff --git a/src/pdfmm/base/PdfDocument.h b/src/pdfmm/base/PdfDocument.h
index 32193d6..daebeaf 100644
--- a/src/pdfmm/base/PdfDocument.h
+++ b/src/pdfmm/base/PdfDocument.h
@@ -306,7 +306,14 @@ private:
     PdfRect FillXObjectFromPage(PdfXObjectForm& xobj, const PdfPage& page, bool useTrimBox);
 
 private:
-    void append(const PdfDocument& doc, bool appendAll);
+    /** Append all the objects of another document, in full or without pages and outlines
+     *  \returns the offset added to the object numbers of the other document
+     */
+    unsigned append(const PdfDocument& doc, bool appendAll);
+
+    unsigned appendObjects(const PdfDocument& doc);
+
+    void appendOutlines(const PdfDocument& doc, unsigned difference);
     /** Recursively changes every PdfReference in the PdfObject and in any child
      *  that is either an PdfArray or a direct object.
      *  The reference is changed so that difference is added to the object number
-- 
2.43.0


From ede15a69462a01131a284c91195d7ccfc84cfc5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:58 +0000
Subject: [PATCH 027/128] fix: move pages without copying the document, keep
 indices and inherited resources right

---
 src/pdfmm/base/PdfPage.cpp           | 21 +++---------
 src/pdfmm/base/PdfPage.h             |  1 +
 src/pdfmm/base/PdfPageCollection.cpp | 50 ++++++++++++++++++++++++++++
 src/pdfmm/base/PdfPageCollection.h   |  5 +++
 src/pdfmm/base/PdfPageTreeCache.cpp  | 22 ++++++++++++
 src/pdfmm/base/PdfPageTreeCache.h    | 10 ++++++
 6 files changed, 92 insertions(+), 17 deletions(-)

diff --git a/src/pdfmm/base/PdfPage.cpp b/src/pdfmm/base/PdfPage.cpp
index 04bc157..0585252 100644
--- a/src/pdfmm/base/PdfPage.cpp
+++ b/src/pdfmm/base/PdfPage.cpp
@@ -212,20 +212,7 @@ void PdfPage::SetRotationRaw(int rotation)
 
 void PdfPage::MoveAt(unsigned index)
 {
-    // TODO: CHECK-ME FOR CORRECT WORKING
-    auto& doc = GetDocument();
-    auto& pages = doc.GetPages();
-    unsigned fromIndex = m_Index;
-    pages.InsertDocumentPageAt(index, doc, m_Index);
-    if (index < fromIndex)
-    {
-        // If we inserted the page before the old 
-        // position we have to increment the from position
-        fromIndex++;
-    }
-
-    pages.RemovePageAt(fromIndex);
-    m_Index = fromIndex;
+    GetDocument().GetPages().movePage(m_Index, index);
 }
 
 PdfField& PdfPage::CreateField(const string_view& name, PdfFieldType fieldType, const PdfRect& rect)
@@ -515,9 +502,9 @@ PdfResources* getResources(PdfObject& obj, const deque<PdfObject*>& listOfParent
     auto resources = obj.GetDictionary().FindKey("Resources");
     if (resources == nullptr)
     {
-        // Resources might be inherited
-        for (auto& parent : listOfParents)
-            resources = parent->GetDictionary().FindKey("Resources");
+        // Resources might be inherited, from the nearest parent that has them
+        for (auto it = listOfParents.rbegin(); it != listOfParents.rend() && resources == nullptr; it++)
+            resources = (*it)->GetDictionary().FindKey("Resources");
     }
 
     if (resources == nullptr)
diff --git a/src/pdfmm/base/PdfPage.h b/src/pdfmm/base/PdfPage.h
index e8950bd..a5df4d5 100644
--- a/src/pdfmm/base/PdfPage.h
+++ b/src/pdfmm/base/PdfPage.h
@@ -47,6 +47,7 @@ class PDFMM_API PdfPage final : public PdfDictionaryElement, public PdfCanvas
 {
     PDFMM_UNIT_TEST(PdfPageTest);
     friend class PdfPageCollection;
+    friend class PdfPageTreeCache;
 
 private:
     /** Create a new PdfPage object.
diff --git a/src/pdfmm/base/PdfPageCollection.cpp b/src/pdfmm/base/PdfPageCollection.cpp
index 8ac90ad..2a58fb1 100644
--- a/src/pdfmm/base/PdfPageCollection.cpp
+++ b/src/pdfmm/base/PdfPageCollection.cpp
@@ -230,6 +230,56 @@ void PdfPageCollection::RemovePageAt(unsigned atIndex)
     GetDocument().GetCatalog().GetDictionary().RemoveKey("OpenAction");
 }
 
+void PdfPageCollection::movePage(unsigned fromIndex, unsigned toIndex)
+{
+    unsigned pageCount = this->GetCount();
+    if (fromIndex >= pageCount)
+        PDFMM_RAISE_ERROR(PdfErrorCode::PageNotFound);
+
+    if (toIndex >= pageCount)
+        toIndex = pageCount - 1;
+
+    if (fromIndex == toIndex)
+        return;
+
+    PdfObjectList parents;
+    auto pageNode = this->getPageNode(fromIndex, this->GetRoot(), parents);
+    if (pageNode == nullptr || parents.size() == 0)
+        PDFMM_RAISE_ERROR(PdfErrorCode::PageNotFound);
+
+    PdfObjectList newParents;
+    (void)this->getPageNode(toIndex, this->GetRoot(), newParents);
+    if (newParents.size() == 0)
+        PDFMM_RAISE_ERROR(PdfErrorCode::PageNotFound);
+
+    auto page = m_cache.GetPage(fromIndex);
+    if (newParents.back() != parents.back())
+    {
+        // Keep the attributes that the page inherits where it is now
+        for (auto key : { "Resources", "MediaBox", "CropBox", "Rotate" })
+        {
+            if (pageNode->GetDictionary().HasKey(key))
+                continue;
+
+            auto attribute = pageNode->GetDictionary().FindKeyParent(key);
+            if (attribute == nullptr)
+                continue;
+
+            // NOTE: AddKeyIndirectSafe makes a copy of direct objects
+            pageNode->GetDictionary().AddKeyIndirectSafe(key, *attribute);
+            if (page != nullptr && string_view(key) == "Resources")
+                page->m_Resources.reset(new PdfResources(pageNode->GetDictionary().MustFindKey(key)));
+        }
+    }
+
+    unsigned kidsIndex = (unsigned)this->getPosInKids(*pageNode, parents.back());
+    deletePageFromNode(*parents.back(), parents, kidsIndex, *pageNode);
+    m_cache.TakePage(fromIndex);
+    InsertPageAt(toIndex, *pageNode);
+    if (page != nullptr)
+        m_cache.SetPage(toIndex, page);
+}
+
 PdfObject* PdfPageCollection::getPageNode(unsigned index, PdfObject& parent,
     PdfObjectList& parents)
 {
diff --git a/src/pdfmm/base/PdfPageCollection.h b/src/pdfmm/base/PdfPageCollection.h
index 2d19fc5..25d42e1 100644
--- a/src/pdfmm/base/PdfPageCollection.h
+++ b/src/pdfmm/base/PdfPageCollection.h
@@ -140,6 +140,11 @@ private:
 
     PdfObject* getPageNode(unsigned index, PdfObject& parent, PdfObjectList& parents);
 
+    /**
+     * Move a page to another index
+     */
+    void movePage(unsigned fromIndex, unsigned toIndex);
+
     unsigned getChildCount(const PdfObject& nodeObj) const;
 
     /**
diff --git a/src/pdfmm/base/PdfPageTreeCache.cpp b/src/pdfmm/base/PdfPageTreeCache.cpp
index 46f6bad..b4a175b 100644
--- a/src/pdfmm/base/PdfPageTreeCache.cpp
+++ b/src/pdfmm/base/PdfPageTreeCache.cpp
@@ -37,6 +37,8 @@ void PdfPageTreeCache::SetPage(unsigned atIndex, PdfPage* page)
         m_PageObjs.resize((size_t)atIndex + 1);
 
     m_PageObjs[atIndex] = page;
+    if (page != nullptr)
+        page->m_Index = atIndex;
 }
 
 void PdfPageTreeCache::SetPages(unsigned atIndex, const vector<PdfPage*>& pages)
@@ -67,6 +69,8 @@ void PdfPageTreeCache::InsertPlaceHolders(unsigned atIndex, unsigned count)
 
     for (unsigned i = 0; i < count; i++)
         m_PageObjs.insert(m_PageObjs.begin() + atIndex + i, static_cast<PdfPage*>(nullptr));
+
+    updateIndices(atIndex + count);
 }
 
 void PdfPageTreeCache::DeletePage(unsigned atIndex)
@@ -75,7 +79,25 @@ void PdfPageTreeCache::DeletePage(unsigned atIndex)
         return;
 
     delete m_PageObjs[atIndex];
+    TakePage(atIndex);
+}
+
+void PdfPageTreeCache::TakePage(unsigned atIndex)
+{
+    if (atIndex >= m_PageObjs.size())
+        return;
+
     m_PageObjs.erase(m_PageObjs.begin() + atIndex);
+    updateIndices(atIndex);
+}
+
+void PdfPageTreeCache::updateIndices(unsigned fromIndex)
+{
+    for (unsigned i = fromIndex; i < m_PageObjs.size(); i++)
+    {
+        if (m_PageObjs[i] != nullptr)
+            m_PageObjs[i]->m_Index = i;
+    }
 }
 
 void PdfPageTreeCache::ClearCache()
diff --git a/src/pdfmm/base/PdfPageTreeCache.h b/src/pdfmm/base/PdfPageTreeCache.h
index cd01bf1..a5e7ba4 100644
--- a/src/pdfmm/base/PdfPageTreeCache.h
+++ b/src/pdfmm/base/PdfPageTreeCache.h
@@ -67,12 +67,22 @@ public:
      */
     void DeletePage(unsigned atIndex);
 
+    /**
+     * Remove a PdfPage from the cache without deleting it
+     * \param atIndex index of the page
+     */
+    void TakePage(unsigned atIndex);
+
     /**
      * Clear cache, i.e. remove all elements from the
      * cache.
      */
     void ClearCache();
 
+private:
+    // Update the index of the pages from the given one on
+    void updateIndices(unsigned fromIndex);
+
 private:
     List m_PageObjs;
 };
-- 
2.43.0


From fb5cca1083cc797f2a60cfacf3413a1e8f9ca82d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:51 +0000
Subject: [PATCH 028/128] fix: terminate formatted strings, read over their end
 by file specifications

---
 src/pdfmm/private/Format.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pdfmm/private/Format.h b/src/pdfmm/private/Format.h
index 250d8d0..4985dfa 100644
--- a/src/pdfmm/private/Format.h
+++ b/src/pdfmm/private/Format.h
@@ -27,7 +27,9 @@ namespace utls
     template <typename... Args>
     inline static void FormatTo(char* dst, size_t n, const std::string_view& fmt, const Args&... args)
     {
-        std::format_to_n(dst, n, fmt, args...);
+        // NOTE: Leave room for the terminator
+        auto result = std::format_to_n(dst, n - 1, fmt, args...);
+        *result.out = '\0';
     }
 
     /** Helper class. Use COMMON_FORMAT macro instead
-- 
2.43.0


From c68173924679c5cb0944a77e0d71476be8e23f66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:23 +0000
Subject: [PATCH 029/128] fix: make all the stream devices behave alike
 (positions, end of data, open modes, failed seeks)

---
 src/pdfmm/base/PdfInputStream.cpp  |   2 +
 src/pdfmm/base/PdfOutputStream.cpp |   1 +
 src/pdfmm/base/PdfStreamDevice.cpp | 169 +++++++++++++++++++++--------
 src/pdfmm/base/PdfStreamDevice.h   |   5 +
 4 files changed, 129 insertions(+), 48 deletions(-)

diff --git a/src/pdfmm/base/PdfInputStream.cpp b/src/pdfmm/base/PdfInputStream.cpp
index 25a1009..2d765b5 100644
--- a/src/pdfmm/base/PdfInputStream.cpp
+++ b/src/pdfmm/base/PdfInputStream.cpp
@@ -73,6 +73,7 @@ size_t InputStream::Read(char* buffer, size_t size, bool& eof)
 
 void InputStream::CopyTo(OutputStream& stream)
 {
+    checkRead();
     size_t read = 0;
     char buffer[BUFFER_SIZE];
 
@@ -88,6 +89,7 @@ void InputStream::CopyTo(OutputStream& stream)
 
 void InputStream::CopyTo(OutputStream& stream, size_t size)
 {
+    checkRead();
     size_t read = 0;
     char buffer[BUFFER_SIZE];
 
diff --git a/src/pdfmm/base/PdfOutputStream.cpp b/src/pdfmm/base/PdfOutputStream.cpp
index f8c7eb7..b73fdb4 100644
--- a/src/pdfmm/base/PdfOutputStream.cpp
+++ b/src/pdfmm/base/PdfOutputStream.cpp
@@ -40,6 +40,7 @@ void OutputStream::Write(const char* buffer, size_t size)
 
 void OutputStream::Flush()
 {
+    checkWrite();
     flush();
 }
 
diff --git a/src/pdfmm/base/PdfStreamDevice.cpp b/src/pdfmm/base/PdfStreamDevice.cpp
index d32c1d1..9199258 100644
--- a/src/pdfmm/base/PdfStreamDevice.cpp
+++ b/src/pdfmm/base/PdfStreamDevice.cpp
@@ -17,21 +17,19 @@ using namespace mm;
 template <typename TStream>
 size_t getPosition(TStream& stream)
 {
-    streampos ret;
-    if (stream.eof())
-    {
-        // tellg() will set failbit when called on a stream that
-        // is eof. Reset eofbit and restore it after calling tellg()
-        // https://stackoverflow.com/q/18490576/213871
-        PDFMM_ASSERT(!stream.fail());
-        stream.clear();
-        ret = utls::stream_helper<TStream>::tell(stream);
-        stream.clear(ios_base::eofbit);
-    }
-    else
-    {
-        ret = utls::stream_helper<TStream>::tell(stream);
-    }
+    // tellg() will set failbit when called on a stream that
+    // is eof. Reset eofbit and restore it after calling tellg()
+    // https://stackoverflow.com/q/18490576/213871
+    bool eof = stream.eof();
+    if (eof)
+        stream.clear(stream.rdstate() & ~ios_base::eofbit);
+
+    streampos ret = utls::stream_helper<TStream>::tell(stream);
+    if (eof)
+        stream.setstate(ios_base::eofbit);
+
+    if (ret == streampos(-1))
+        PDFMM_RAISE_ERROR_INFO(PdfErrorCode::InvalidDeviceOperation, "Failed to get the position in the stream");
 
     return (size_t)ret;
 }
@@ -39,27 +37,18 @@ size_t getPosition(TStream& stream)
 template <typename TStream>
 size_t getLength(TStream& stream)
 {
-    streampos currpos;
-    if (stream.eof())
-    {
-        // tellg() will set failbit when called on a stream that
-        // is eof. Reset eofbit and restore it after calling tellg()
-        // https://stackoverflow.com/q/18490576/213871
-        PDFMM_ASSERT(!stream.fail());
-        stream.clear();
-        currpos = utls::stream_helper<TStream>::tell(stream);
-        stream.clear(ios_base::eofbit);
-    }
-    else
-    {
-        streampos prevpos = utls::stream_helper<TStream>::tell(stream);
-        (void)utls::stream_helper<TStream>::seek(stream, 0, ios_base::end);
-        currpos = utls::stream_helper<TStream>::tell(stream);
-        if (currpos != prevpos)
-            (void)utls::stream_helper<TStream>::seek(stream, prevpos);
-    }
+    bool eof = stream.eof();
+    size_t prevpos = getPosition(stream);
+    stream.clear(stream.rdstate() & ~ios_base::eofbit);
+    (void)utls::stream_helper<TStream>::seek(stream, 0, ios_base::end);
+    size_t ret = getPosition(stream);
+    if (ret != prevpos)
+        (void)utls::stream_helper<TStream>::seek(stream, (std::streampos)prevpos);
+
+    if (eof)
+        stream.setstate(ios_base::eofbit);
 
-    return (size_t)currpos;
+    return ret;
 }
 
 template <typename TStream>
@@ -173,7 +162,8 @@ StandardStreamDevice::StandardStreamDevice(DeviceAccess access, ios* stream, ist
     m_Stream(stream),
     m_istream(istream),
     m_ostream(ostream),
-    m_StreamOwned(streamOwned)
+    m_StreamOwned(streamOwned),
+    m_Writing(false)
 {
     // TODO1: check stream is either istream/ostream/iostream
 }
@@ -223,8 +213,15 @@ size_t StandardStreamDevice::GetPosition() const
             ret = getPosition(*m_istream);
             break;
         }
-        case DeviceAccess::Write:
         case DeviceAccess::ReadWrite:
+        {
+            if (m_Writing)
+                ret = getPosition(*m_ostream);
+            else
+                ret = getPosition(*m_istream);
+            break;
+        }
+        case DeviceAccess::Write:
         {
             PDFMM_INVARIANT(m_ostream != nullptr);
             ret = getPosition(*m_ostream);
@@ -247,12 +244,17 @@ bool StandardStreamDevice::CanSeek() const
 
 bool StandardStreamDevice::Eof() const
 {
-    return m_Stream->eof();
+    if (GetAccess() == DeviceAccess::Write)
+        return m_Stream->eof();
+
+    char ch;
+    return !peek(ch);
 }
 
 void StandardStreamDevice::writeBuffer(const char* buffer, size_t size)
 {
     PDFMM_INVARIANT(m_ostream != nullptr);
+    beginWrite();
     m_ostream->write(buffer, size);
     if (m_ostream->fail())
         PDFMM_RAISE_ERROR_INFO(PdfErrorCode::InvalidDeviceOperation, "Failed to write the given buffer");
@@ -269,6 +271,7 @@ void StandardStreamDevice::flush()
 size_t StandardStreamDevice::readBuffer(char* buffer, size_t size, bool& eof)
 {
     PDFMM_INVARIANT(m_Stream != nullptr);
+    beginRead();
     if (m_istream->eof())
     {
         eof = true;
@@ -281,6 +284,7 @@ size_t StandardStreamDevice::readBuffer(char* buffer, size_t size, bool& eof)
 bool StandardStreamDevice::readChar(char& ch)
 {
     PDFMM_INVARIANT(m_Stream != nullptr);
+    beginRead();
     if (m_istream->eof())
     {
         ch = '\0';
@@ -295,6 +299,7 @@ bool StandardStreamDevice::peek(char& ch) const
     PDFMM_INVARIANT(m_istream != nullptr);
 
     int read;
+    const_cast<StandardStreamDevice&>(*this).beginRead();
 
     // NOTE: We don't want a peek() call to set failbit
     if (m_istream->eof())
@@ -319,20 +324,76 @@ void StandardStreamDevice::seek(ssize_t offset, SeekDirection direction)
 {
     // NOTE: Some c++ libraries don't reset eofbit prior seeking
     m_Stream->clear(m_Stream->rdstate() & ~ios_base::eofbit);
-    if ((GetAccess() & DeviceAccess::Read) != DeviceAccess{ })
+    switch (GetAccess())
     {
-        PDFMM_INVARIANT(m_istream != nullptr);
-        ::seek(*m_istream, offset, direction);
+        case DeviceAccess::Read:
+        {
+            PDFMM_INVARIANT(m_istream != nullptr);
+            ::seek(*m_istream, offset, direction);
+            break;
+        }
+        case DeviceAccess::Write:
+        {
+            PDFMM_INVARIANT(m_ostream != nullptr);
+            ::seek(*m_ostream, offset, direction);
+            break;
+        }
+        case DeviceAccess::ReadWrite:
+        {
+            // Seek from the position of the last operation,
+            // and bring the other position to the same place
+            PDFMM_INVARIANT(m_istream != nullptr && m_ostream != nullptr);
+            if (m_Writing)
+            {
+                ::seek(*m_ostream, offset, direction);
+                if (!m_Stream->fail())
+                    beginRead();
+            }
+            else
+            {
+                ::seek(*m_istream, offset, direction);
+                if (!m_Stream->fail())
+                    beginWrite();
+            }
+            break;
+        }
+        default:
+            PDFMM_RAISE_ERROR(PdfErrorCode::InvalidEnumValue);
     }
 
-    if ((GetAccess() & DeviceAccess::Write) != DeviceAccess{ })
+    if (m_Stream->fail())
     {
-        PDFMM_INVARIANT(m_ostream != nullptr);
-        ::seek(*m_ostream, offset, direction);
+        // The seek is refused: leave the stream usable
+        m_Stream->clear(m_Stream->rdstate() & ~ios_base::failbit);
+        PDFMM_RAISE_ERROR_INFO(PdfErrorCode::InvalidDeviceOperation, "Failed to seek to given position in the stream");
     }
+}
 
-    if (m_Stream->fail())
-        PDFMM_RAISE_ERROR_INFO(PdfErrorCode::InvalidDeviceOperation, "Failed to seek to given position in the stream");
+void StandardStreamDevice::beginRead()
+{
+    // The stream may have distinct positions for reading and writing
+    if (!m_Writing || GetAccess() != DeviceAccess::ReadWrite)
+        return;
+
+    m_istream->clear(m_istream->rdstate() & ~ios_base::eofbit);
+    ::seek(*m_istream, (ssize_t)getPosition(*m_ostream), SeekDirection::Begin);
+    if (m_istream->fail())
+        PDFMM_RAISE_ERROR_INFO(PdfErrorCode::InvalidDeviceOperation, "Failed to seek the stream before reading");
+
+    m_Writing = false;
+}
+
+void StandardStreamDevice::beginWrite()
+{
+    if (m_Writing || GetAccess() != DeviceAccess::ReadWrite)
+        return;
+
+    m_ostream->clear(m_ostream->rdstate() & ~ios_base::eofbit);
+    ::seek(*m_ostream, (ssize_t)getPosition(*m_istream), SeekDirection::Begin);
+    if (m_ostream->fail())
+        PDFMM_RAISE_ERROR_INFO(PdfErrorCode::InvalidDeviceOperation, "Failed to seek the stream before writing");
+
+    m_Writing = true;
 }
 
 FileStreamDevice::FileStreamDevice(const string_view& filepath)
@@ -407,6 +468,8 @@ fstream* FileStreamDevice::getFileStream(const string_view& filename, FileMode m
         case FileMode::CreateNew:
             if (fs::exists(filename))
                 PDFMM_RAISE_ERROR_INFO(PdfErrorCode::InvalidDeviceOperation, "The file must not exist");
+            // NOTE: Without ios_base::trunc files opened read/write aren't created
+            openmode |= ios_base::trunc;
             break;
         case FileMode::Create:
             openmode |= ios_base::trunc;
@@ -414,8 +477,13 @@ fstream* FileStreamDevice::getFileStream(const string_view& filename, FileMode m
         case FileMode::Open:
             if ((access & DeviceAccess::Write) != DeviceAccess{ } && !fs::exists(filename))
                 PDFMM_RAISE_ERROR_INFO(PdfErrorCode::InvalidDeviceOperation, "The file must exist");
+            // NOTE: ios_base::out alone truncates the file
+            openmode |= ios_base::in;
             break;
         case FileMode::OpenOrCreate:
+            // NOTE: ios_base::out alone truncates the file,
+            // while files opened read/write aren't created
+            openmode |= fs::exists(filename) ? ios_base::in : ios_base::trunc;
             break;
         case FileMode::Truncate:
             if (!fs::exists(filename))
@@ -489,9 +557,9 @@ void NullStreamDevice::writeBuffer(const char* buffer, size_t size)
 
 size_t NullStreamDevice::readBuffer(char* buffer, size_t size, bool& eof)
 {
-    (void)buffer;
     size_t prevpos = m_Position;
     m_Position = std::min(m_Length, m_Position + size);
+    std::memset(buffer, 0, m_Position - prevpos);
     eof = m_Position == m_Length;
     return m_Position - prevpos;
 }
@@ -503,7 +571,12 @@ bool NullStreamDevice::readChar(char& ch)
         return false;
 
     m_Position++;
-    return false;
+    return true;
+}
+
+bool NullStreamDevice::CanSeek() const
+{
+    return true;
 }
 
 void NullStreamDevice::seek(ssize_t offset, SeekDirection direction)
diff --git a/src/pdfmm/base/PdfStreamDevice.h b/src/pdfmm/base/PdfStreamDevice.h
index 79a026e..2460de3 100644
--- a/src/pdfmm/base/PdfStreamDevice.h
+++ b/src/pdfmm/base/PdfStreamDevice.h
@@ -72,12 +72,15 @@ protected:
 
 private:
     StandardStreamDevice(DeviceAccess access, std::ios* stream, std::istream* istream, std::ostream* ostream, bool streamOwned);
+    void beginRead();
+    void beginWrite();
 
 private:
     std::ios* m_Stream;
     std::istream* m_istream;
     std::ostream* m_ostream;
     bool m_StreamOwned;
+    bool m_Writing; // The last operation was a write
 };
 
 // These are the .NET System.IO file opening modes
@@ -258,6 +261,8 @@ public:
 
     bool Eof() const override;
 
+    bool CanSeek() const override;
+
 protected:
     void writeBuffer(const char* buffer, size_t size) override;
     size_t readBuffer(char* buffer, size_t size, bool& eof) override;
-- 
2.43.0


From e15ff49be857330f116b79cae6a890666a098646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:21 +0000
Subject: [PATCH 030/128] fix: mark objects dirty when their array or
 dictionary is assigned or resized

---
 src/pdfmm/base/PdfArray.cpp      | 4 +++-
 src/pdfmm/base/PdfDictionary.cpp | 2 ++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/pdfmm/base/PdfArray.cpp b/src/pdfmm/base/PdfArray.cpp
index e76d091..a73913b 100644
--- a/src/pdfmm/base/PdfArray.cpp
+++ b/src/pdfmm/base/PdfArray.cpp
@@ -67,6 +67,7 @@ PdfArray& PdfArray::operator=(const PdfArray& rhs)
 {
     m_Objects = rhs.m_Objects;
     setChildrenParent();
+    SetDirty();
     return *this;
 }
 
@@ -74,6 +75,7 @@ PdfArray& PdfArray::operator=(PdfArray&& rhs) noexcept
 {
     m_Objects = std::move(rhs.m_Objects);
     setChildrenParent();
+    SetDirty();
     return *this;
 }
 
@@ -370,7 +372,7 @@ void PdfArray::resize(size_t size)
     if (size > numeric_limits<unsigned>::max())
         throw length_error("Too big size");
 #endif
-    m_Objects.resize(size);
+    Resize((unsigned)size);
 }
 
 void PdfArray::reserve(size_t size)
diff --git a/src/pdfmm/base/PdfDictionary.cpp b/src/pdfmm/base/PdfDictionary.cpp
index 783244f..778639e 100644
--- a/src/pdfmm/base/PdfDictionary.cpp
+++ b/src/pdfmm/base/PdfDictionary.cpp
@@ -30,6 +30,7 @@ PdfDictionary& PdfDictionary::operator=(const PdfDictionary& rhs)
 {
     m_Map = rhs.m_Map;
     setChildrenParent();
+    SetDirty();
     return *this;
 }
 
@@ -37,6 +38,7 @@ PdfDictionary& PdfDictionary::operator=(PdfDictionary&& rhs) noexcept
 {
     m_Map = std::move(rhs.m_Map);
     setChildrenParent();
+    SetDirty();
     return *this;
 }
 
-- 
2.43.0


From 3b7d9b1c460ff9c614b1c6bb38f904b35120d545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:26 +0000
Subject: [PATCH 031/128] fix: don't write behind the decode parameters when
 there are more of them than filters

---
 src/pdfmm/base/PdfObjectStream.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pdfmm/base/PdfObjectStream.cpp b/src/pdfmm/base/PdfObjectStream.cpp
index 0a28dbf..608943d 100644
--- a/src/pdfmm/base/PdfObjectStream.cpp
+++ b/src/pdfmm/base/PdfObjectStream.cpp
@@ -320,7 +320,7 @@ unique_ptr<InputStream> PdfObjectStream::getInputStream(bool raw, PdfFilterList&
             }
             else if (decodeParmsObj->TryGetArray(decodeParmsArr))
             {
-                for (unsigned i = 0; i < decodeParmsArr->GetSize(); i++)
+                for (unsigned i = 0; i < decodeParmsArr->GetSize() && i < decodeParms.size(); i++)
                 {
                     auto decodeParmsEntry = decodeParmsArr->FindAt(i);
                     if (decodeParmsEntry == nullptr || !decodeParmsEntry->TryGetDictionary(decodeParmsDict))
-- 
2.43.0


From 9863be953c323b337417ed4a742f4b4bff29f99a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:41 +0000
Subject: [PATCH 032/128] fix: remove the padding of strings decrypted with
 AES-256

---
 src/pdfmm/base/PdfEncrypt.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/pdfmm/base/PdfEncrypt.cpp b/src/pdfmm/base/PdfEncrypt.cpp
index 507a095..3715e1a 100644
--- a/src/pdfmm/base/PdfEncrypt.cpp
+++ b/src/pdfmm/base/PdfEncrypt.cpp
@@ -1190,6 +1190,9 @@ void PdfEncryptAESBase::BaseDecrypt(const unsigned char* key, unsigned keyLen, c
     if (rc != 1)
         PDFMM_RAISE_ERROR_INFO(PdfErrorCode::InternalLogic, "Error initializing AES decryption engine");
 
+    // NOTE: The engine may have been used without padding during authentication
+    EVP_CIPHER_CTX_set_padding(aes, 1);
+
     int dataOutMoved;
     rc = EVP_DecryptUpdate(aes, textout, &dataOutMoved, textin, (int)textlen);
     outLen = dataOutMoved;
@@ -1222,6 +1225,9 @@ void PdfEncryptAESBase::BaseEncrypt(const unsigned char* key, unsigned keyLen, c
     if (rc != 1)
         PDFMM_RAISE_ERROR_INFO(PdfErrorCode::InternalLogic, "Error initializing AES encryption engine");
 
+    // NOTE: The engine may have been used without padding during authentication
+    EVP_CIPHER_CTX_set_padding(aes, 1);
+
     int dataOutMoved;
     rc = EVP_EncryptUpdate(aes, textout, &dataOutMoved, textin, (int)textlen);
     if (rc != 1)
-- 
2.43.0


From 561da84772f7ee3f299d1f17d22b973d50f9c9cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:42 +0000
Subject: [PATCH 033/128] fix: keep both passwords when saving an encrypted
 document that was opened with one of them

---
 src/pdfmm/base/PdfEncrypt.cpp | 65 ++++++++++++++++++++++++++++-------
 src/pdfmm/base/PdfEncrypt.h   |  2 ++
 2 files changed, 55 insertions(+), 12 deletions(-)

diff --git a/src/pdfmm/base/PdfEncrypt.cpp b/src/pdfmm/base/PdfEncrypt.cpp
index 3715e1a..17355a8 100644
--- a/src/pdfmm/base/PdfEncrypt.cpp
+++ b/src/pdfmm/base/PdfEncrypt.cpp
@@ -582,7 +582,8 @@ PdfEncrypt::PdfEncrypt() :
     m_keyLength(0),
     m_rValue(0),
     m_pValue(PdfPermissions::None),
-    m_EncryptMetadata(true)
+    m_EncryptMetadata(true),
+    m_Authenticated(false)
 {
     memset(m_uValue, 0, 48);
     memset(m_oValue, 0, 48);
@@ -603,6 +604,7 @@ PdfEncrypt::PdfEncrypt(const PdfEncrypt& rhs)
     m_userPass = rhs.m_userPass;
     m_ownerPass = rhs.m_ownerPass;
     m_EncryptMetadata = rhs.m_EncryptMetadata;
+    m_Authenticated = rhs.m_Authenticated;
 }
 
 bool PdfEncrypt::CheckKey(unsigned char key1[32], unsigned char key2[32])
@@ -616,7 +618,7 @@ bool PdfEncrypt::CheckKey(unsigned char key1[32], unsigned char key2[32])
 }
 
 PdfEncryptMD5Base::PdfEncryptMD5Base()
-    : m_rc4key{ }, m_rc4last{ }
+    : m_userPad{ }, m_rc4key{ }, m_rc4last{ }
 {
 }
 
@@ -629,6 +631,7 @@ PdfEncryptMD5Base::PdfEncryptMD5Base(const PdfEncrypt& rhs) : PdfEncrypt(rhs)
 
     std::memcpy(m_encryptionKey, rhs.GetEncryptionKey(), sizeof(unsigned char) * 16);
 
+    std::memcpy(m_userPad, static_cast<const PdfEncryptMD5Base*>(ptr)->m_userPad, sizeof(unsigned char) * 32);
     std::memcpy(m_rc4key, static_cast<const PdfEncryptMD5Base*>(ptr)->m_rc4key, sizeof(unsigned char) * 16);
     std::memcpy(m_rc4last, static_cast<const PdfEncryptMD5Base*>(ptr)->m_rc4last, sizeof(unsigned char) * 256);
     m_EncryptMetadata = static_cast<const PdfEncryptMD5Base*>(ptr)->m_EncryptMetadata;
@@ -1002,12 +1005,21 @@ void PdfEncryptRC4::GenerateEncryptionKey(const string_view& documentId)
     unsigned char userpswd[32];
     unsigned char ownerpswd[32];
 
-    // Pad passwords
-    PadPassword(m_userPass, userpswd);
-    PadPassword(m_ownerPass, ownerpswd);
+    if (m_Authenticated)
+    {
+        // NOTE: Only one of the passwords is known here, so
+        // the O value must be retained to keep the other one
+        std::memcpy(userpswd, m_userPad, 32);
+    }
+    else
+    {
+        // Pad passwords
+        PadPassword(m_userPass, userpswd);
+        PadPassword(m_ownerPass, ownerpswd);
 
-    // Compute O value
-    ComputeOwnerKey(userpswd, ownerpswd, m_keyLength, m_rValue, false, m_oValue);
+        // Compute O value
+        ComputeOwnerKey(userpswd, ownerpswd, m_keyLength, m_rValue, false, m_oValue);
+    }
 
     // Compute encryption key and U value
     m_documentId = documentId;
@@ -1038,11 +1050,18 @@ bool PdfEncryptRC4::Authenticate(const string_view& password, const string_view&
         success = CheckKey(userKey, m_uValue);
 
         if (success)
+        {
             m_ownerPass = password;
+            std::memcpy(m_userPad, userpswd, 32);
+        }
     }
     else
+    {
         m_userPass = password;
+        std::memcpy(m_userPad, pswd, 32);
+    }
 
+    m_Authenticated = success;
     return success;
 }
 
@@ -1243,12 +1262,21 @@ void PdfEncryptAESV2::GenerateEncryptionKey(const string_view& documentId)
     unsigned char userpswd[32];
     unsigned char ownerpswd[32];
 
-    // Pad passwords
-    PadPassword(m_userPass, userpswd);
-    PadPassword(m_ownerPass, ownerpswd);
+    if (m_Authenticated)
+    {
+        // NOTE: Only one of the passwords is known here, so
+        // the O value must be retained to keep the other one
+        std::memcpy(userpswd, m_userPad, 32);
+    }
+    else
+    {
+        // Pad passwords
+        PadPassword(m_userPass, userpswd);
+        PadPassword(m_ownerPass, ownerpswd);
 
-    // Compute O value
-    ComputeOwnerKey(userpswd, ownerpswd, m_keyLength, m_rValue, false, m_oValue);
+        // Compute O value
+        ComputeOwnerKey(userpswd, ownerpswd, m_keyLength, m_rValue, false, m_oValue);
+    }
 
     // Compute encryption key and U value
     m_documentId = documentId;
@@ -1272,6 +1300,7 @@ bool PdfEncryptAESV2::Authenticate(const string_view& password, const string_vie
     if (success)
     {
         m_userPass = password;
+        std::memcpy(m_userPad, pswd, 32);
     }
     else
     {
@@ -1281,9 +1310,13 @@ bool PdfEncryptAESV2::Authenticate(const string_view& password, const string_vie
         success = CheckKey(userKey, m_uValue);
 
         if (success)
+        {
             m_ownerPass = password;
+            std::memcpy(m_userPad, userpswd, 32);
+        }
     }
 
+    m_Authenticated = success;
     return success;
 }
     
@@ -1663,6 +1696,13 @@ void PdfEncryptAESV3::GenerateEncryptionKey(const string_view& documentId)
 {
     (void)documentId;
 
+    if (m_Authenticated)
+    {
+        // NOTE: Only one of the passwords is known here. The existing
+        // key and all the values are still valid for both of them
+        return;
+    }
+
     // Prepare passwords
     unsigned char userpswd[127];
     unsigned char ownerpswd[127];
@@ -1784,6 +1824,7 @@ bool PdfEncryptAESV3::Authenticate(const string_view& password, const string_vie
 
     // TODO Validate permissions (or not...)
 
+    m_Authenticated = success;
     return success;
 }
 
diff --git a/src/pdfmm/base/PdfEncrypt.h b/src/pdfmm/base/PdfEncrypt.h
index d4cb626..95acb83 100644
--- a/src/pdfmm/base/PdfEncrypt.h
+++ b/src/pdfmm/base/PdfEncrypt.h
@@ -398,6 +398,7 @@ protected:
     unsigned char m_encryptionKey[32]; // Encryption key
     std::string m_documentId;          // DocumentID of the current document
     bool m_EncryptMetadata;            // Is metadata encrypted
+    bool m_Authenticated;              // The passwords are known by authentication only
 
 private:
     static PdfEncryptAlgorithm s_EnabledEncryptionAlgorithms; // Or'ed int containing the enabled encryption algorithms
@@ -575,6 +576,7 @@ protected:
      */
     void CreateObjKey(unsigned char objkey[16], unsigned& pnKeyLen, const PdfReference& objref) const;
 
+    unsigned char m_userPad[32];        // padded user password, if authenticated
     unsigned char m_rc4key[16];         // last RC4 key
     unsigned char m_rc4last[256];       // last RC4 state table
 
-- 
2.43.0


From de35839ee7bfdd350a8e159eb1e5e30eb0671895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:42 +0000
Subject: [PATCH 034/128] fix: generate the key of an updated encrypted
 document from the identifier that is written

---
 src/pdfmm/base/PdfWriter.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/pdfmm/base/PdfWriter.cpp b/src/pdfmm/base/PdfWriter.cpp
index b0bc64c..b1b6f7b 100644
--- a/src/pdfmm/base/PdfWriter.cpp
+++ b/src/pdfmm/base/PdfWriter.cpp
@@ -76,7 +76,12 @@ void PdfWriter::Write(OutputStreamDevice& device)
     // setup encrypt dictionary
     if (m_Encrypt != nullptr)
     {
-        m_Encrypt->GenerateEncryptionKey(m_identifier);
+        // NOTE: The key depends on the first identifier in the trailer, which
+        // is retained with updates as the existing objects are not written again
+        if (m_IncrementalUpdate && !m_originalIdentifier.IsEmpty())
+            m_Encrypt->GenerateEncryptionKey(m_originalIdentifier);
+        else
+            m_Encrypt->GenerateEncryptionKey(m_identifier);
 
         // Add our own Encryption dictionary
         m_EncryptObj = &m_Objects->CreateDictionaryObject();
-- 
2.43.0


From 7ab251bb91705e9afa29f89b5b171a3b2e2ab2e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:42 +0000
Subject: [PATCH 035/128] fix: keep the encryption of a copied document

---
 src/pdfmm/base/PdfMemDocument.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/pdfmm/base/PdfMemDocument.cpp b/src/pdfmm/base/PdfMemDocument.cpp
index d4c6a52..5e6fabc 100644
--- a/src/pdfmm/base/PdfMemDocument.cpp
+++ b/src/pdfmm/base/PdfMemDocument.cpp
@@ -62,9 +62,8 @@ PdfMemDocument::PdfMemDocument(const PdfMemDocument& rhs) :
     m_HasXRefStream(rhs.m_HasXRefStream),
     m_PrevXRefOffset(rhs.m_PrevXRefOffset)
 {
-    auto encryptObj = GetTrailer().GetDictionary().FindKey("Encrypt");
-    if (encryptObj != nullptr)
-        m_Encrypt = PdfEncrypt::CreateFromObject(*encryptObj);
+    if (rhs.m_Encrypt != nullptr)
+        m_Encrypt = PdfEncrypt::CreateFromEncrypt(*rhs.m_Encrypt);
 }
 
 void PdfMemDocument::Clear()
-- 
2.43.0


From caffa20158d183544b7ea2d1a30433d1062c389c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:42 +0000
Subject: [PATCH 036/128] fix: keep the decryption for objects loaded on demand
 when another encryption is set

---
 src/pdfmm/base/PdfMemDocument.cpp | 5 ++++-
 src/pdfmm/base/PdfMemDocument.h   | 2 ++
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/pdfmm/base/PdfMemDocument.cpp b/src/pdfmm/base/PdfMemDocument.cpp
index 5e6fabc..5a0b1de 100644
--- a/src/pdfmm/base/PdfMemDocument.cpp
+++ b/src/pdfmm/base/PdfMemDocument.cpp
@@ -103,7 +103,10 @@ void PdfMemDocument::initFromParser(PdfParser& parser)
     {
         // All PdfParser instances have a pointer to a PdfEncrypt object.
         // So we have to take ownership of it (command the parser to give it).
-        m_Encrypt = parser.TakeEncrypt();
+        // NOTE: The objects loaded on demand still need it if the user
+        // sets another encryption, so keep it separate
+        m_LoadEncrypt = parser.TakeEncrypt();
+        m_Encrypt = PdfEncrypt::CreateFromEncrypt(*m_LoadEncrypt);
     }
 
     Init();
diff --git a/src/pdfmm/base/PdfMemDocument.h b/src/pdfmm/base/PdfMemDocument.h
index b500748..024b141 100644
--- a/src/pdfmm/base/PdfMemDocument.h
+++ b/src/pdfmm/base/PdfMemDocument.h
@@ -252,6 +252,8 @@ private:
     bool m_HasXRefStream;
     int64_t m_PrevXRefOffset;
     std::unique_ptr<PdfEncrypt> m_Encrypt;
+    // Used by the loaded objects to decrypt their content on demand
+    std::unique_ptr<PdfEncrypt> m_LoadEncrypt;
     std::shared_ptr<InputStreamDevice> m_device;
 };
 
-- 
2.43.0


From e91851cd938fae6d639cc30a324ad4c279e5c606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:42 +0000
Subject: [PATCH 037/128] fix: refuse an update that changes the encryption of
 the document

---
 src/pdfmm/base/PdfMemDocument.cpp | 11 +++++++++++
 src/pdfmm/base/PdfMemDocument.h   |  1 +
 2 files changed, 12 insertions(+)

diff --git a/src/pdfmm/base/PdfMemDocument.cpp b/src/pdfmm/base/PdfMemDocument.cpp
index 5a0b1de..0878cba 100644
--- a/src/pdfmm/base/PdfMemDocument.cpp
+++ b/src/pdfmm/base/PdfMemDocument.cpp
@@ -78,6 +78,7 @@ void PdfMemDocument::clear()
     m_HasXRefStream = false;
     m_PrevXRefOffset = -1;
     m_Encrypt = nullptr;
+    m_EncryptChanged = false;
     m_device = nullptr;
 }
 
@@ -272,6 +273,14 @@ void PdfMemDocument::SaveUpdate(const string_view& filename, PdfSaveOptions opts
 
 void PdfMemDocument::SaveUpdate(OutputStreamDevice& device, PdfSaveOptions opts)
 {
+    // The objects which are not part of the update are still
+    // encrypted (or not) in the same way they were loaded
+    if (m_EncryptChanged && m_PrevXRefOffset >= 0)
+    {
+        PDFMM_RAISE_ERROR_INFO(PdfErrorCode::CannotEncryptedForUpdate,
+            "The encryption of a loaded document can't be changed with an update");
+    }
+
     beforeWrite(opts);
 
     PdfWriter writer(this->GetObjects(), this->GetTrailer().GetObject());
@@ -326,11 +335,13 @@ void PdfMemDocument::SetEncrypted(const string_view& userPassword, const string_
     PdfKeyLength keyLength)
 {
     m_Encrypt = PdfEncrypt::Create(userPassword, ownerPassword, protection, algorithm, keyLength);
+    m_EncryptChanged = true;
 }
 
 void PdfMemDocument::SetEncrypt(unique_ptr<PdfEncrypt>&& encrypt)
 {
     m_Encrypt = std::move(encrypt);
+    m_EncryptChanged = true;
 }
 
 void PdfMemDocument::FreeObjectMemory(const PdfReference& ref, bool force)
diff --git a/src/pdfmm/base/PdfMemDocument.h b/src/pdfmm/base/PdfMemDocument.h
index 024b141..82d9310 100644
--- a/src/pdfmm/base/PdfMemDocument.h
+++ b/src/pdfmm/base/PdfMemDocument.h
@@ -254,6 +254,7 @@ private:
     std::unique_ptr<PdfEncrypt> m_Encrypt;
     // Used by the loaded objects to decrypt their content on demand
     std::unique_ptr<PdfEncrypt> m_LoadEncrypt;
+    bool m_EncryptChanged = false;
     std::shared_ptr<InputStreamDevice> m_device;
 };
 
-- 
2.43.0


From b4aaff0fa3da6abbe2f2a24426760f2f688a3755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:42 +0000
Subject: [PATCH 038/128] fix: use the effective key length when encrypting
 with RC4

---
 src/pdfmm/base/PdfEncrypt.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pdfmm/base/PdfEncrypt.cpp b/src/pdfmm/base/PdfEncrypt.cpp
index 17355a8..cc6f0d8 100644
--- a/src/pdfmm/base/PdfEncrypt.cpp
+++ b/src/pdfmm/base/PdfEncrypt.cpp
@@ -1136,6 +1136,7 @@ PdfEncryptRC4::PdfEncryptRC4(const string_view& userPassword, const string_view&
             intKeyLength = (intKeyLength >= 40) ? ((intKeyLength <= 128) ? intKeyLength : 128) : 40;
             m_rValue = 3;
             m_keyLength = intKeyLength / 8;
+            m_eKeyLength = static_cast<PdfKeyLength>(intKeyLength);
             break;
         }
         case PdfEncryptAlgorithm::RC4V1:
@@ -1143,6 +1144,7 @@ PdfEncryptRC4::PdfEncryptRC4(const string_view& userPassword, const string_view&
         {
             m_rValue = 2;
             m_keyLength = 40 / 8;
+            m_eKeyLength = PdfKeyLength::L40;
             break;
         }
         case PdfEncryptAlgorithm::AESV2:
-- 
2.43.0


From c751d435d3785284586ff23156518987f58528ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:42 +0000
Subject: [PATCH 039/128] fix: check the length of the entries of a loaded
 encryption dictionary

---
 src/pdfmm/base/PdfEncrypt.cpp | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/pdfmm/base/PdfEncrypt.cpp b/src/pdfmm/base/PdfEncrypt.cpp
index cc6f0d8..5b5e2d7 100644
--- a/src/pdfmm/base/PdfEncrypt.cpp
+++ b/src/pdfmm/base/PdfEncrypt.cpp
@@ -485,7 +485,7 @@ unique_ptr<PdfEncrypt> PdfEncrypt::CreateFromObject(const PdfObject& encryptObj)
         if (encryptObj.GetDictionary().HasKey("Length"))
             length = encryptObj.GetDictionary().GetKey("Length")->GetNumber();
         else
-            length = 0;
+            length = (int64_t)PdfKeyLength::L40; // Default value
 
         const PdfObject* encryptMetadataObj = encryptObj.GetDictionary().GetKey("EncryptMetadata");
         if (encryptMetadataObj != nullptr && encryptMetadataObj->IsBool())
@@ -513,6 +513,10 @@ unique_ptr<PdfEncrypt> PdfEncrypt::CreateFromObject(const PdfObject& encryptObj)
         throw e;
     }
 
+    const size_t keyEntryLength = lV == 5 ? 48 : 32;
+    if (oValue.GetRawData().size() < keyEntryLength || uValue.GetRawData().size() < keyEntryLength)
+        PDFMM_RAISE_ERROR_INFO(PdfErrorCode::InvalidEncryptionDict, "Invalid length of the /O or /U entry");
+
     if ((lV == 1) && (rValue == 2 || rValue == 3)
         && PdfEncrypt::IsEncryptionEnabled(PdfEncryptAlgorithm::RC4V1))
     {
@@ -528,6 +532,10 @@ unique_ptr<PdfEncrypt> PdfEncrypt::CreateFromObject(const PdfObject& encryptObj)
         {
             PDFMM_RAISE_ERROR_INFO(PdfErrorCode::ValueOutOfRange, "Given key length too large for MD5");
         }
+        if (length < CHAR_BIT)
+        {
+            PDFMM_RAISE_ERROR_INFO(PdfErrorCode::ValueOutOfRange, "Given key length too small");
+        }
         return unique_ptr<PdfEncrypt>(new PdfEncryptRC4(oValue, uValue, pValue, rValue, PdfEncryptAlgorithm::RC4V2, static_cast<int>(length), encryptMetadata));
     }
     else
@@ -542,9 +550,11 @@ unique_ptr<PdfEncrypt> PdfEncrypt::CreateFromObject(const PdfObject& encryptObj)
             (rValue == 5 && PdfEncrypt::IsEncryptionEnabled(PdfEncryptAlgorithm::AESV3))
             || (rValue == 6 && PdfEncrypt::IsEncryptionEnabled(PdfEncryptAlgorithm::AESV3R6))))
         {
-            PdfString permsValue = encryptObj.GetDictionary().GetKey("Perms")->GetString();
-            PdfString oeValue = encryptObj.GetDictionary().GetKey("OE")->GetString();
-            PdfString ueValue = encryptObj.GetDictionary().GetKey("UE")->GetString();
+            PdfString permsValue = encryptObj.GetDictionary().MustGetKey("Perms").GetString();
+            PdfString oeValue = encryptObj.GetDictionary().MustGetKey("OE").GetString();
+            PdfString ueValue = encryptObj.GetDictionary().MustGetKey("UE").GetString();
+            if (permsValue.GetRawData().size() < 16 || oeValue.GetRawData().size() < 32 || ueValue.GetRawData().size() < 32)
+                PDFMM_RAISE_ERROR_INFO(PdfErrorCode::InvalidEncryptionDict, "Invalid length of the /Perms, /OE or /UE entry");
 
             return unique_ptr<PdfEncrypt>(new PdfEncryptAESV3(oValue, oeValue, uValue,
                 ueValue, pValue, permsValue, (PdfAESV3Revision)rValue));
-- 
2.43.0


From b47ede1f610c43ba3989ba90536d59faf15f306e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:42 +0000
Subject: [PATCH 040/128] fix: don't read behind the end of an encrypted stream
 that is too short

---
 src/pdfmm/base/PdfEncrypt.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/pdfmm/base/PdfEncrypt.cpp b/src/pdfmm/base/PdfEncrypt.cpp
index 5b5e2d7..4ef15b7 100644
--- a/src/pdfmm/base/PdfEncrypt.cpp
+++ b/src/pdfmm/base/PdfEncrypt.cpp
@@ -304,11 +304,20 @@ protected:
         if (m_inputEof)
             goto DrainBuffer;
 
+        // Some producers write empty streams without an initialization vector
+        if (m_init && m_inputLen == 0)
+        {
+            eof = true;
+            return 0;
+        }
+
         int rc;
         if (m_init)
         {
             // Read the initialization vector separately first
             char iv[AES_IV_LENGTH];
+            if (m_inputLen < AES_IV_LENGTH)
+                PDFMM_RAISE_ERROR_INFO(PdfErrorCode::UnexpectedEOF, "Can't read enough bytes for AES IV");
             bool streameof;
             read = ReadBuffer(*m_InputStream, iv, AES_IV_LENGTH, streameof);
             if (read != AES_IV_LENGTH)
-- 
2.43.0


From 3a515b432737efa7dda7f3790af74df561b34b11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:42 +0000
Subject: [PATCH 041/128] fix: use a secure random source for the keys of
 AES-256 encryption

---
 src/pdfmm/base/PdfEncrypt.cpp | 35 ++++++++++++++++++-----------------
 1 file changed, 18 insertions(+), 17 deletions(-)

diff --git a/src/pdfmm/base/PdfEncrypt.cpp b/src/pdfmm/base/PdfEncrypt.cpp
index 4ef15b7..b3e5af2 100644
--- a/src/pdfmm/base/PdfEncrypt.cpp
+++ b/src/pdfmm/base/PdfEncrypt.cpp
@@ -26,6 +26,7 @@
 
 #include <openssl/opensslconf.h>
 #include <openssl/md5.h>
+#include <openssl/rand.h>
 #include <openssl/evp.h>
 
 using namespace std;
@@ -405,6 +406,16 @@ private:
 
 }
 
+#ifdef PDFMM_HAVE_LIBIDN
+
+static void generateRandom(unsigned char* buffer, size_t size)
+{
+    if (RAND_bytes(buffer, (int)size) != 1)
+        PDFMM_RAISE_ERROR_INFO(PdfErrorCode::InternalLogic, "Error generating random data");
+}
+
+#endif // PDFMM_HAVE_LIBIDN
+
 PdfEncrypt::~PdfEncrypt() { }
 
 void PdfEncrypt::GenerateEncryptionKey(const PdfString& documentId)
@@ -1543,11 +1554,8 @@ void PdfEncryptSHABase::ComputeUserKey(const unsigned char* userpswd, size_t len
     unsigned char vSalt[8];
     unsigned char kSalt[8];
 
-    for (int i = 0; i < 8; i++)
-    {
-        vSalt[i] = rand() % 255;
-        kSalt[i] = rand() % 255;
-    }
+    generateRandom(vSalt, sizeof(vSalt));
+    generateRandom(kSalt, sizeof(kSalt));
 
     // Generate hash for U
     unsigned char hashValue[32];
@@ -1591,11 +1599,8 @@ void PdfEncryptSHABase::ComputeOwnerKey(const unsigned char* ownerpswd, size_t l
     unsigned char vSalt[8];
     unsigned char kSalt[8];
 
-    for (int i = 0; i < 8; i++)
-    {
-        vSalt[i] = rand() % 255;
-        kSalt[i] = rand() % 255;
-    }
+    generateRandom(vSalt, sizeof(vSalt));
+    generateRandom(kSalt, sizeof(kSalt));
 
     // Generate hash for O
     unsigned char hashValue[32];
@@ -1651,11 +1656,8 @@ void PdfEncryptSHABase::PreprocessPassword(const string_view& password, unsigned
 
 void PdfEncryptSHABase::ComputeEncryptionKey()
 {
-    // Seed once for all
-    srand((unsigned)time(nullptr));
-
-    for (unsigned i = 0; i < m_keyLength; i++)
-        m_encryptionKey[i] = rand() % 255;
+    // NOTE: The key must not be predictable
+    generateRandom(m_encryptionKey, m_keyLength);
 }
     
 bool PdfEncryptSHABase::Authenticate(const std::string_view& documentID, const std::string_view& password,
@@ -1679,8 +1681,7 @@ bool PdfEncryptSHABase::Authenticate(const std::string_view& documentID, const s
     
 void PdfEncryptSHABase::GenerateInitialVector(unsigned char iv[]) const
 {
-    for (int i = 0; i < AES_IV_LENGTH; i++)
-        iv[i] = rand() % 255;
+    generateRandom(iv, AES_IV_LENGTH);
 }
     
 void PdfEncryptSHABase::CreateEncryptionDictionary(PdfDictionary& dictionary) const
-- 
2.43.0


From 489a0677f4d8c2986e1bd9adb94edff0bdd275dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:42 +0000
Subject: [PATCH 042/128] fix: check that the document identifier is not empty

---
 src/pdfmm/base/PdfParser.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/pdfmm/base/PdfParser.cpp b/src/pdfmm/base/PdfParser.cpp
index 3f99e10..3eea5fd 100644
--- a/src/pdfmm/base/PdfParser.cpp
+++ b/src/pdfmm/base/PdfParser.cpp
@@ -895,7 +895,11 @@ const PdfString& PdfParser::GetDocumentId()
     if (!m_Trailer->GetDictionary().HasKey("ID"))
         PDFMM_RAISE_ERROR_INFO(PdfErrorCode::InvalidEncryptionDict, "No document ID found in trailer");
 
-    return m_Trailer->GetDictionary().GetKey("ID")->GetArray()[0].GetString();
+    auto& idArr = m_Trailer->GetDictionary().MustFindKey("ID").GetArray();
+    if (idArr.GetSize() == 0)
+        PDFMM_RAISE_ERROR_INFO(PdfErrorCode::InvalidEncryptionDict, "No document ID found in trailer");
+
+    return idArr[0].GetString();
 }
 
 void PdfParser::UpdateDocumentVersion()
-- 
2.43.0


From 49d0ebe5cf26e7011feb9121acfdce6c25f30d23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:42 +0000
Subject: [PATCH 043/128] fix: remove the encryption dictionary also when a
 device reports a failure with another exception

---
 src/pdfmm/base/PdfWriter.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/pdfmm/base/PdfWriter.cpp b/src/pdfmm/base/PdfWriter.cpp
index b1b6f7b..c9cad18 100644
--- a/src/pdfmm/base/PdfWriter.cpp
+++ b/src/pdfmm/base/PdfWriter.cpp
@@ -118,6 +118,17 @@ void PdfWriter::Write(OutputStreamDevice& device)
         PDFMM_PUSH_FRAME(e);
         throw e;
     }
+    catch (...)
+    {
+        // NOTE: Devices may also report errors with other exceptions
+        if (m_EncryptObj != nullptr)
+        {
+            m_Objects->RemoveObject(m_EncryptObj->GetIndirectReference());
+            m_EncryptObj = nullptr;
+        }
+
+        throw;
+    }
 
     // P.Zent: Delete Encryption dictionary (cannot be reused)
     if (m_EncryptObj != nullptr)
-- 
2.43.0


From 1d05b60c0bfbb5823dba4a05156728736a6bce07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:41 +0000
Subject: [PATCH 044/128] fix: report disabled encryption algorithms before
 invalid entries

---
 src/pdfmm/base/PdfEncrypt.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/pdfmm/base/PdfEncrypt.cpp b/src/pdfmm/base/PdfEncrypt.cpp
index b3e5af2..a1dfd85 100644
--- a/src/pdfmm/base/PdfEncrypt.cpp
+++ b/src/pdfmm/base/PdfEncrypt.cpp
@@ -533,13 +533,16 @@ unique_ptr<PdfEncrypt> PdfEncrypt::CreateFromObject(const PdfObject& encryptObj)
         throw e;
     }
 
-    const size_t keyEntryLength = lV == 5 ? 48 : 32;
-    if (oValue.GetRawData().size() < keyEntryLength || uValue.GetRawData().size() < keyEntryLength)
-        PDFMM_RAISE_ERROR_INFO(PdfErrorCode::InvalidEncryptionDict, "Invalid length of the /O or /U entry");
+    auto checkKeyEntries = [&](size_t length)
+    {
+        if (oValue.GetRawData().size() < length || uValue.GetRawData().size() < length)
+            PDFMM_RAISE_ERROR_INFO(PdfErrorCode::InvalidEncryptionDict, "Invalid length of the /O or /U entry");
+    };
 
     if ((lV == 1) && (rValue == 2 || rValue == 3)
         && PdfEncrypt::IsEncryptionEnabled(PdfEncryptAlgorithm::RC4V1))
     {
+        checkKeyEntries(32);
         return unique_ptr<PdfEncrypt>(new PdfEncryptRC4(oValue, uValue, pValue, rValue, PdfEncryptAlgorithm::RC4V1, (int)PdfKeyLength::L40, encryptMetadata));
     }
     else if ((((lV == 2) && (rValue == 3)) || cfmName == "V2")
@@ -556,6 +559,7 @@ unique_ptr<PdfEncrypt> PdfEncrypt::CreateFromObject(const PdfObject& encryptObj)
         {
             PDFMM_RAISE_ERROR_INFO(PdfErrorCode::ValueOutOfRange, "Given key length too small");
         }
+        checkKeyEntries(32);
         return unique_ptr<PdfEncrypt>(new PdfEncryptRC4(oValue, uValue, pValue, rValue, PdfEncryptAlgorithm::RC4V2, static_cast<int>(length), encryptMetadata));
     }
     else
@@ -563,6 +567,7 @@ unique_ptr<PdfEncrypt> PdfEncrypt::CreateFromObject(const PdfObject& encryptObj)
         if ((lV == 4) && (rValue == 4)
             && PdfEncrypt::IsEncryptionEnabled(PdfEncryptAlgorithm::AESV2))
         {
+            checkKeyEntries(32);
             return unique_ptr<PdfEncrypt>(new PdfEncryptAESV2(oValue, uValue, pValue, encryptMetadata));
         }
 #ifdef PDFMM_HAVE_LIBIDN
@@ -570,6 +575,7 @@ unique_ptr<PdfEncrypt> PdfEncrypt::CreateFromObject(const PdfObject& encryptObj)
             (rValue == 5 && PdfEncrypt::IsEncryptionEnabled(PdfEncryptAlgorithm::AESV3))
             || (rValue == 6 && PdfEncrypt::IsEncryptionEnabled(PdfEncryptAlgorithm::AESV3R6))))
         {
+            checkKeyEntries(48);
             PdfString permsValue = encryptObj.GetDictionary().MustGetKey("Perms").GetString();
             PdfString oeValue = encryptObj.GetDictionary().MustGetKey("OE").GetString();
             PdfString ueValue = encryptObj.GetDictionary().MustGetKey("UE").GetString();
-- 
2.43.0


From 23abf37ee6a3d2968804843ee8194da7eefa4c82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:34 +0000
Subject: [PATCH 045/128] fix: don't end reading an AES encrypted stream by
 accident

---
 src/pdfmm/base/PdfEncrypt.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pdfmm/base/PdfEncrypt.cpp b/src/pdfmm/base/PdfEncrypt.cpp
index a1dfd85..b7868e4 100644
--- a/src/pdfmm/base/PdfEncrypt.cpp
+++ b/src/pdfmm/base/PdfEncrypt.cpp
@@ -302,6 +302,7 @@ protected:
         int outlen = 0;
         size_t drainLen;
         size_t read;
+        eof = false;
         if (m_inputEof)
             goto DrainBuffer;
 
-- 
2.43.0


From ff7acc8698e3b395dd17e7ebac5c5537f174f0f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:34 +0000
Subject: [PATCH 046/128] fix: read the whole initialization vector of an AES
 encrypted stream

---
 src/pdfmm/base/PdfEncrypt.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pdfmm/base/PdfEncrypt.cpp b/src/pdfmm/base/PdfEncrypt.cpp
index b7868e4..811a437 100644
--- a/src/pdfmm/base/PdfEncrypt.cpp
+++ b/src/pdfmm/base/PdfEncrypt.cpp
@@ -321,7 +321,7 @@ protected:
             if (m_inputLen < AES_IV_LENGTH)
                 PDFMM_RAISE_ERROR_INFO(PdfErrorCode::UnexpectedEOF, "Can't read enough bytes for AES IV");
             bool streameof;
-            read = ReadBuffer(*m_InputStream, iv, AES_IV_LENGTH, streameof);
+            read = m_InputStream->Read(iv, AES_IV_LENGTH, streameof);
             if (read != AES_IV_LENGTH)
                 PDFMM_RAISE_ERROR_INFO(PdfErrorCode::UnexpectedEOF, "Can't read enough bytes for AES IV");
 
-- 
2.43.0


From d2d87f8cc4e0971eb5ea34043088c827fec970d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:41 +0000
Subject: [PATCH 047/128] fix: don't let the empty password open a document
 when no owner password is given

---
 src/pdfmm/base/PdfEncrypt.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/pdfmm/base/PdfEncrypt.cpp b/src/pdfmm/base/PdfEncrypt.cpp
index 811a437..75f49c9 100644
--- a/src/pdfmm/base/PdfEncrypt.cpp
+++ b/src/pdfmm/base/PdfEncrypt.cpp
@@ -1052,7 +1052,8 @@ void PdfEncryptRC4::GenerateEncryptionKey(const string_view& documentId)
     {
         // Pad passwords
         PadPassword(m_userPass, userpswd);
-        PadPassword(m_ownerPass, ownerpswd);
+        // NOTE: If there is no owner password the user password is used instead
+        PadPassword(m_ownerPass.empty() ? m_userPass : m_ownerPass, ownerpswd);
 
         // Compute O value
         ComputeOwnerKey(userpswd, ownerpswd, m_keyLength, m_rValue, false, m_oValue);
@@ -1311,7 +1312,8 @@ void PdfEncryptAESV2::GenerateEncryptionKey(const string_view& documentId)
     {
         // Pad passwords
         PadPassword(m_userPass, userpswd);
-        PadPassword(m_ownerPass, ownerpswd);
+        // NOTE: If there is no owner password the user password is used instead
+        PadPassword(m_ownerPass.empty() ? m_userPass : m_ownerPass, ownerpswd);
 
         // Compute O value
         ComputeOwnerKey(userpswd, ownerpswd, m_keyLength, m_rValue, false, m_oValue);
@@ -1738,7 +1740,8 @@ void PdfEncryptAESV3::GenerateEncryptionKey(const string_view& documentId)
     size_t userpswdLen;
     size_t ownerpswdLen;
     PreprocessPassword(m_userPass, userpswd, userpswdLen);
-    PreprocessPassword(m_ownerPass, ownerpswd, ownerpswdLen);
+    // NOTE: If there is no owner password the user password is used instead
+    PreprocessPassword(m_ownerPass.empty() ? m_userPass : m_ownerPass, ownerpswd, ownerpswdLen);
 
     // Compute encryption key
     ComputeEncryptionKey();
-- 
2.43.0


From b29a57be74ffbdc6d458fdb9299761683192f588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:41 +0000
Subject: [PATCH 048/128] fix: don't reuse the reference of a loaded encryption
 dictionary

---
 src/pdfmm/base/PdfParser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pdfmm/base/PdfParser.cpp b/src/pdfmm/base/PdfParser.cpp
index 3eea5fd..4614e66 100644
--- a/src/pdfmm/base/PdfParser.cpp
+++ b/src/pdfmm/base/PdfParser.cpp
@@ -632,7 +632,7 @@ void PdfParser::ReadObjects(InputStreamDevice& device)
                 obj->Parse();
                 // NOTE: Never add the encryption dictionary to m_Objects
                 // we create a new one, if we need it for writing
-                m_entries[i].Parsed = false;
+                m_entries[i].Type = XRefEntryType::Free;
                 m_Encrypt = PdfEncrypt::CreateFromObject(*obj);
             }
             catch (PdfError& e)
-- 
2.43.0


From ced4c8e7b0ee63605cc3478d51021749093e28c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:37 +0000
Subject: [PATCH 049/128] fix: don't encrypt cross reference streams of the
 loaded document

---
 src/pdfmm/base/PdfWriter.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/pdfmm/base/PdfWriter.cpp b/src/pdfmm/base/PdfWriter.cpp
index c9cad18..a383283 100644
--- a/src/pdfmm/base/PdfWriter.cpp
+++ b/src/pdfmm/base/PdfWriter.cpp
@@ -187,8 +187,13 @@ void PdfWriter::WritePdfObjects(OutputStreamDevice& device, const PdfIndirectObj
         else
         {
             xref.AddInUseObject(obj->GetIndirectReference(), device.GetPosition());
-            // Also make sure that we do not encrypt the encryption dictionary!
-            obj->Write(device, m_WriteFlags, obj == m_EncryptObj ? nullptr : m_Encrypt.get(), m_buffer);
+            // Also make sure that we do not encrypt the encryption dictionary
+            // and cross reference streams, that are never encrypted!
+            const PdfObject* typeObj;
+            bool doNotEncrypt = obj == m_EncryptObj || (m_Encrypt != nullptr && obj->IsDictionary()
+                && (typeObj = obj->GetDictionary().GetKey(PdfName::KeyType)) != nullptr
+                && typeObj->IsName() && typeObj->GetName() == "XRef");
+            obj->Write(device, m_WriteFlags, doNotEncrypt ? nullptr : m_Encrypt.get(), m_buffer);
         }
     }
 
-- 
2.43.0


From a3bf6953962e11de86822fc9e29587ac7a4b6aa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:06 +0000
Subject: [PATCH 050/128] fix: limit the depth of dictionaries nested in
 dictionaries

---
 src/pdfmm/base/PdfTokenizer.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pdfmm/base/PdfTokenizer.cpp b/src/pdfmm/base/PdfTokenizer.cpp
index e478343..6a21c08 100644
--- a/src/pdfmm/base/PdfTokenizer.cpp
+++ b/src/pdfmm/base/PdfTokenizer.cpp
@@ -408,6 +408,8 @@ bool PdfTokenizer::tryReadDataType(InputStreamDevice& device, PdfLiteralDataType
 
 void PdfTokenizer::ReadDictionary(InputStreamDevice& device, PdfVariant& variant, const PdfStatefulEncrypt& encrypt)
 {
+    // Values of dictionaries are not read by TryReadNextVariant()
+    utls::RecursionGuard guard;
     PdfVariant val;
     PdfName key;
     PdfTokenType tokenType;
-- 
2.43.0


From ad3fe4ba468bc054c3ff2bc0ca748d94a4fe3760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:06 +0000
Subject: [PATCH 051/128] fix: refuse files where no trailer was found

---
 src/pdfmm/base/PdfParser.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pdfmm/base/PdfParser.cpp b/src/pdfmm/base/PdfParser.cpp
index 4614e66..57ef95a 100644
--- a/src/pdfmm/base/PdfParser.cpp
+++ b/src/pdfmm/base/PdfParser.cpp
@@ -605,7 +605,9 @@ void PdfParser::ReadXRefStreamContents(InputStreamDevice& device, size_t offset,
 
 void PdfParser::ReadObjects(InputStreamDevice& device)
 {
-    PDFMM_ASSERT(m_Trailer != nullptr);
+    if (m_Trailer == nullptr)
+        PDFMM_RAISE_ERROR_INFO(PdfErrorCode::NoTrailer, "The file has no trailer");
+
     // Check for encryption and make sure that the encryption object
     // is loaded before all other objects
     PdfObject* encrypt = m_Trailer->GetDictionary().GetKey("Encrypt");
-- 
2.43.0


From 524482395e01b593c15f7a7bf318a5f3acf7404b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:06 +0000
Subject: [PATCH 052/128] fix: don't drop objects which can't be read because
 the device failed

---
 src/pdfmm/base/PdfParser.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pdfmm/base/PdfParser.cpp b/src/pdfmm/base/PdfParser.cpp
index 57ef95a..9c44195 100644
--- a/src/pdfmm/base/PdfParser.cpp
+++ b/src/pdfmm/base/PdfParser.cpp
@@ -712,7 +712,10 @@ void PdfParser::ReadObjectsInternal(InputStreamDevice& device)
                         }
                         catch (PdfError& e)
                         {
-                            if (m_IgnoreBrokenObjects)
+                            // NOTE: Failures of the device don't mean the object is broken,
+                            // unless it was supposed to be found outside of the file
+                            if (m_IgnoreBrokenObjects && (e != PdfErrorCode::InvalidDeviceOperation
+                                || entry.Offset >= m_FileSize))
                             {
                                 mm::LogMessage(PdfLogSeverity::Error, "Error while loading object {} {} R, Offset={}, Index={}",
                                     obj->GetIndirectReference().ObjectNumber(),
-- 
2.43.0


From ef7da76969583bd1d2fe803426ff691810474546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:06 +0000
Subject: [PATCH 053/128] fix: allow to read again after a read error of a
 stream

---
 src/pdfmm/base/PdfStreamDevice.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/pdfmm/base/PdfStreamDevice.cpp b/src/pdfmm/base/PdfStreamDevice.cpp
index 9199258..a053e70 100644
--- a/src/pdfmm/base/PdfStreamDevice.cpp
+++ b/src/pdfmm/base/PdfStreamDevice.cpp
@@ -322,8 +322,12 @@ Eof:
 
 void StandardStreamDevice::seek(ssize_t offset, SeekDirection direction)
 {
-    // NOTE: Some c++ libraries don't reset eofbit prior seeking
-    m_Stream->clear(m_Stream->rdstate() & ~ios_base::eofbit);
+    // NOTE: Some c++ libraries don't reset eofbit prior seeking. Failures
+    // while reading were already reported and reading may be tried again
+    if (m_Writing || GetAccess() == DeviceAccess::Write)
+        m_Stream->clear(m_Stream->rdstate() & ~ios_base::eofbit);
+    else
+        m_Stream->clear();
     switch (GetAccess())
     {
         case DeviceAccess::Read:
-- 
2.43.0


From d8ca58954bdd14f0045638b1d1b7d37a9b69d890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:18:22 +0000
Subject: [PATCH 054/128] fix: check the bounds of cross reference entries
 before accessing them

---
 src/pdfmm/base/PdfParser.cpp                 | 2 ++
 src/pdfmm/base/PdfXRefStreamParserObject.cpp | 9 ++++++++-
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/pdfmm/base/PdfParser.cpp b/src/pdfmm/base/PdfParser.cpp
index 9c44195..2dd3f7b 100644
--- a/src/pdfmm/base/PdfParser.cpp
+++ b/src/pdfmm/base/PdfParser.cpp
@@ -455,6 +455,8 @@ void PdfParser::ReadXRefSubsection(InputStreamDevice& device, int64_t& firstObje
         PDFMM_RAISE_ERROR_INFO(PdfErrorCode::ValueOutOfRange, "ReadXRefSubsection: first object is negative");
     if (objectCount < 0)
         PDFMM_RAISE_ERROR_INFO(PdfErrorCode::ValueOutOfRange, "ReadXRefSubsection: object count is negative");
+    if (firstObject > numeric_limits<int64_t>::max() - objectCount)
+        PDFMM_RAISE_ERROR_INFO(PdfErrorCode::InvalidXRef, "ReadXRefSubsection: object count is too big");
 
     m_entries.Enlarge((uint64_t)(firstObject + objectCount));
 
diff --git a/src/pdfmm/base/PdfXRefStreamParserObject.cpp b/src/pdfmm/base/PdfXRefStreamParserObject.cpp
index 472ffd9..63001a1 100644
--- a/src/pdfmm/base/PdfXRefStreamParserObject.cpp
+++ b/src/pdfmm/base/PdfXRefStreamParserObject.cpp
@@ -118,10 +118,17 @@ void PdfXRefStreamParserObject::parseStream(const int64_t wArray[W_ARRAY_SIZE],
         int64_t firstObj = *it++;
         int64_t count = *it++;
 
+        if (firstObj < 0 || count < 0
+            || firstObj > numeric_limits<int64_t>::max() - count)
+        {
+            PDFMM_RAISE_ERROR_INFO(PdfErrorCode::NoXRef, "Invalid XRef Stream /Index");
+        }
+
         m_entries->Enlarge(firstObj + count);
         for (unsigned index = 0; index < (unsigned)count; index++)
         {
-            if ((size_t)(cursor - buffer.data()) >= buffer.size())
+            size_t position = (size_t)(cursor - buffer.data());
+            if (position >= buffer.size() || buffer.size() - position < entryLen)
                 PDFMM_RAISE_ERROR_INFO(PdfErrorCode::NoXRef, "Invalid count in XRef stream");
 
             unsigned objIndex = (unsigned)firstObj + index;
-- 
2.43.0


From 5864165da1604b1920b657d4b5d477595198285a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:18:22 +0000
Subject: [PATCH 055/128] fix: check the descendant font is present

---
 src/pdfmm/base/PdfFontFactory.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pdfmm/base/PdfFontFactory.cpp b/src/pdfmm/base/PdfFontFactory.cpp
index 3c4577c..c6d828c 100644
--- a/src/pdfmm/base/PdfFontFactory.cpp
+++ b/src/pdfmm/base/PdfFontFactory.cpp
@@ -103,6 +103,9 @@ bool PdfFont::TryCreateFromObject(PdfObject& obj, unique_ptr<PdfFont>& font)
         if (descendants.size() != 0)
         {
             objFont = descendants.FindAt(0);
+            if (objFont == nullptr)
+                PDFMM_RAISE_ERROR_INFO(PdfErrorCode::InvalidDataType, "Type0 Font: Missing descendant font");
+
             objDescriptor = objFont->GetDictionary().FindKey("FontDescriptor");
         }
 
-- 
2.43.0


From d1e458bbc04ae9f3a77c30272e433bdf78998276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:48 +0000
Subject: [PATCH 056/128] fix: check the descriptor and the widths of fonts of
 loaded documents

---
 src/pdfmm/base/PdfFontMetricsObject.cpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/pdfmm/base/PdfFontMetricsObject.cpp b/src/pdfmm/base/PdfFontMetricsObject.cpp
index 75f7df3..ae806fd 100644
--- a/src/pdfmm/base/PdfFontMetricsObject.cpp
+++ b/src/pdfmm/base/PdfFontMetricsObject.cpp
@@ -20,6 +20,9 @@ using namespace std;
 
 static PdfFontStretch stretchFromString(const string_view& str);
 
+// The maximum CID value, see ISO 32000-1:2008 "Annex C"
+constexpr unsigned MaxCID = 65535;
+
 PdfFontMetricsObject::PdfFontMetricsObject(const PdfObject& font, const PdfObject* descriptor) :
     m_DefaultWidth(0),
     m_FontFileObject(nullptr),
@@ -69,6 +72,9 @@ PdfFontMetricsObject::PdfFontMetricsObject(const PdfObject& font, const PdfObjec
         }
         else
         {
+            if (descriptor == nullptr)
+                PDFMM_RAISE_ERROR_INFO(PdfErrorCode::NoObject, "Missing descriptor for font");
+
             if (m_FontName.length() == 0 && (obj = descriptor->GetDictionary().FindKey("FontName")) != nullptr)
                 m_FontName = obj->GetName().GetString();
 
@@ -117,6 +123,9 @@ PdfFontMetricsObject::PdfFontMetricsObject(const PdfObject& font, const PdfObjec
         if (m_FontFileType == PdfFontFileType::Type3 && (fontmatrix = font.GetDictionary().FindKey("FontMatrix")) != nullptr)
         {
             auto& fontmatrixArr = fontmatrix->GetArray();
+            if (fontmatrixArr.GetSize() < 6)
+                PDFMM_RAISE_ERROR_INFO(PdfErrorCode::InvalidDataType, "Invalid /FontMatrix");
+
             for (int i = 0; i < 6; i++)
                 m_Matrix[i] = fontmatrixArr[i].GetReal();
         }
@@ -199,6 +208,9 @@ PdfFontMetricsObject::PdfFontMetricsObject(const PdfObject& font, const PdfObjec
             while (pos < widthsArr.GetSize())
             {
                 unsigned start = (unsigned)widthsArr[pos++].GetNumberLenient();
+                if (pos >= widthsArr.GetSize() || start > MaxCID)
+                    PDFMM_RAISE_ERROR_INFO(PdfErrorCode::InvalidDataType, "Invalid /W");
+
                 PdfObject* second = &widthsArr[pos];
                 if (second->IsReference())
                 {
@@ -221,6 +233,9 @@ PdfFontMetricsObject::PdfFontMetricsObject(const PdfObject& font, const PdfObjec
                 else
                 {
                     unsigned end = (unsigned)widthsArr[pos++].GetNumberLenient();
+                    if (pos >= widthsArr.GetSize() || end > MaxCID)
+                        PDFMM_RAISE_ERROR_INFO(PdfErrorCode::InvalidDataType, "Invalid /W");
+
                     unsigned length = end + 1;
                     PDFMM_ASSERT(length >= start);
                     if (length > m_Widths.size())
-- 
2.43.0


From bfee34d5215be3b26449682f45f62dc23534f421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:43 +0000
Subject: [PATCH 057/128] fix: check limits, names and depth when searching
 name trees

---
 src/pdfmm/base/PdfNameTree.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/pdfmm/base/PdfNameTree.cpp b/src/pdfmm/base/PdfNameTree.cpp
index ae19b9e..e52427c 100644
--- a/src/pdfmm/base/PdfNameTree.cpp
+++ b/src/pdfmm/base/PdfNameTree.cpp
@@ -341,6 +341,7 @@ PdfObject* PdfNameTree::GetValue(const PdfName& tree, const PdfString& key) cons
 
 PdfObject* PdfNameTree::GetKeyValue(PdfObject& obj, const PdfString& key) const
 {
+    utls::RecursionGuard guard;
     if (PdfNameTree::CheckLimits(obj, key) != PdfNameLimits::Inside)
         return nullptr;
 
@@ -375,7 +376,7 @@ PdfObject* PdfNameTree::GetKeyValue(PdfObject& obj, const PdfString& key) const
 
         // a names array is a set of PdfString/PdfObject pairs
         // so we loop in sets of two - getting each pair
-        while (it != names.end())
+        while (names.end() - it >= 2)
         {
             if (it->GetString() == key)
             {
@@ -418,6 +419,9 @@ PdfNameLimits PdfNameTree::CheckLimits(const PdfObject& obj, const PdfString& ke
     {
         auto& limits = obj.GetDictionary().MustFindKey("Limits").GetArray();
 
+        if (limits.GetSize() < 2)
+            PDFMM_RAISE_ERROR_INFO(PdfErrorCode::InvalidDataType, "Invalid /Limits");
+
         if (limits[0].GetString().GetString() > key.GetString())
             return PdfNameLimits::Before;
 
-- 
2.43.0


From fa07aaf7385e48284260ce6a5de43e9c706063ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:43 +0000
Subject: [PATCH 058/128] fix: read /FontStretch given as a string

---
 src/pdfmm/base/PdfFontMetricsObject.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pdfmm/base/PdfFontMetricsObject.cpp b/src/pdfmm/base/PdfFontMetricsObject.cpp
index ae806fd..2f9d937 100644
--- a/src/pdfmm/base/PdfFontMetricsObject.cpp
+++ b/src/pdfmm/base/PdfFontMetricsObject.cpp
@@ -301,7 +301,7 @@ PdfFontMetricsObject::PdfFontMetricsObject(const PdfObject& font, const PdfObjec
             if (stretchObj->TryGetName(name))
                 m_FontStretch = stretchFromString(name->GetString());
             else if (stretchObj->TryGetString(str))
-                m_FontStretch = stretchFromString(name->GetString());
+                m_FontStretch = stretchFromString(str->GetString());
             else
                 m_FontStretch = PdfFontStretch::Unknown;
         }
-- 
2.43.0


From 523a8b53ee140cea6f6233caa310ea7300c39f3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:35:42 +0000
Subject: [PATCH 059/128] fix: keep the error codes for invalid cross reference
 entries

---
 src/pdfmm/base/PdfParser.cpp                 |  2 +-
 src/pdfmm/base/PdfXRefStreamParserObject.cpp | 23 +++++++++++---------
 2 files changed, 14 insertions(+), 11 deletions(-)

diff --git a/src/pdfmm/base/PdfParser.cpp b/src/pdfmm/base/PdfParser.cpp
index 2dd3f7b..906bd85 100644
--- a/src/pdfmm/base/PdfParser.cpp
+++ b/src/pdfmm/base/PdfParser.cpp
@@ -456,7 +456,7 @@ void PdfParser::ReadXRefSubsection(InputStreamDevice& device, int64_t& firstObje
     if (objectCount < 0)
         PDFMM_RAISE_ERROR_INFO(PdfErrorCode::ValueOutOfRange, "ReadXRefSubsection: object count is negative");
     if (firstObject > numeric_limits<int64_t>::max() - objectCount)
-        PDFMM_RAISE_ERROR_INFO(PdfErrorCode::InvalidXRef, "ReadXRefSubsection: object count is too big");
+        PDFMM_RAISE_ERROR_INFO(PdfErrorCode::ValueOutOfRange, "ReadXRefSubsection: object count is too big");
 
     m_entries.Enlarge((uint64_t)(firstObject + objectCount));
 
diff --git a/src/pdfmm/base/PdfXRefStreamParserObject.cpp b/src/pdfmm/base/PdfXRefStreamParserObject.cpp
index 63001a1..b4628ff 100644
--- a/src/pdfmm/base/PdfXRefStreamParserObject.cpp
+++ b/src/pdfmm/base/PdfXRefStreamParserObject.cpp
@@ -106,6 +106,18 @@ void PdfXRefStreamParserObject::parseStream(const int64_t wArray[W_ARRAY_SIZE],
         }
     }
 
+    for (unsigned i = 0; i < W_ARRAY_SIZE; i++)
+    {
+        if (wArray[i] > W_MAX_BYTES)
+        {
+            mm::LogMessage(PdfLogSeverity::Error,
+                "The XRef stream dictionary has an entry in /W of size {}. The maximum supported value is {}",
+                wArray[i], W_MAX_BYTES);
+
+            PDFMM_RAISE_ERROR(PdfErrorCode::InvalidXRefStream);
+        }
+    }
+
     const size_t entryLen = static_cast<size_t>(wArray[0] + wArray[1] + wArray[2]);
 
     charbuff buffer;
@@ -121,7 +133,7 @@ void PdfXRefStreamParserObject::parseStream(const int64_t wArray[W_ARRAY_SIZE],
         if (firstObj < 0 || count < 0
             || firstObj > numeric_limits<int64_t>::max() - count)
         {
-            PDFMM_RAISE_ERROR_INFO(PdfErrorCode::NoXRef, "Invalid XRef Stream /Index");
+            PDFMM_RAISE_ERROR_INFO(PdfErrorCode::ValueOutOfRange, "Invalid XRef Stream /Index");
         }
 
         m_entries->Enlarge(firstObj + count);
@@ -172,15 +184,6 @@ void PdfXRefStreamParserObject::readXRefStreamEntry(PdfXRefEntry& entry, char* b
     uint64_t entryRaw[W_ARRAY_SIZE];
     for (unsigned i = 0; i < W_ARRAY_SIZE; i++)
     {
-        if (wArray[i] > W_MAX_BYTES)
-        {
-            mm::LogMessage(PdfLogSeverity::Error,
-                "The XRef stream dictionary has an entry in /W of size {}. The maximum supported value is {}",
-                wArray[i], W_MAX_BYTES);
-
-            PDFMM_RAISE_ERROR(PdfErrorCode::InvalidXRefStream);
-        }
-
         entryRaw[i] = 0;
         for (int64_t z = W_MAX_BYTES - wArray[i]; z < W_MAX_BYTES; z++)
         {
-- 
2.43.0


From b898e07b28df72bbb6307b855e6da83136a97aa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:56:59 +0000
Subject: [PATCH 060/128] fix: don't let inserted pages inherit attributes of
 their new place in the page tree

---
 src/pdfmm/base/PdfPageCollection.cpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/pdfmm/base/PdfPageCollection.cpp b/src/pdfmm/base/PdfPageCollection.cpp
index 2a58fb1..a445b67 100644
--- a/src/pdfmm/base/PdfPageCollection.cpp
+++ b/src/pdfmm/base/PdfPageCollection.cpp
@@ -481,6 +481,22 @@ void PdfPageCollection::insertPagesIntoNode(PdfObject& parent, const PdfObjectLi
     // 3. add parent key to each of the pages
     for (vector<PdfObject*>::const_iterator itPages = pages.begin(); itPages != pages.end(); itPages++)
         (*itPages)->GetDictionary().AddKey("Parent", parent.GetIndirectReference());
+
+    // 4. don't let the pages inherit attributes that they don't have
+    auto& parentDict = parent.GetDictionary();
+    for (auto page : pages)
+    {
+        auto& pageDict = page->GetDictionary();
+        if (!pageDict.HasKey("Rotate") && parentDict.FindKeyParent("Rotate") != nullptr)
+            pageDict.AddKey("Rotate", static_cast<int64_t>(0));
+
+        if (!pageDict.HasKey("Resources") && parentDict.FindKeyParent("Resources") != nullptr)
+            pageDict.AddKey("Resources", PdfDictionary());
+
+        auto mediaBox = pageDict.FindKey("MediaBox");
+        if (mediaBox != nullptr && !pageDict.HasKey("CropBox") && parentDict.FindKeyParent("CropBox") != nullptr)
+            pageDict.AddKey("CropBox", *mediaBox);
+    }
 }
 
 void PdfPageCollection::deletePageFromNode(PdfObject& parent, const PdfObjectList& parents,
-- 
2.43.0


From 91868b8fb199bef4e3101b43440c2aa5bf58ad2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:56:59 +0000
Subject: [PATCH 061/128] fix: separate the content streams of a page when
 reading them together

---
 src/pdfmm/base/PdfContents.cpp | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/pdfmm/base/PdfContents.cpp b/src/pdfmm/base/PdfContents.cpp
index e8565a0..e89cb7a 100644
--- a/src/pdfmm/base/PdfContents.cpp
+++ b/src/pdfmm/base/PdfContents.cpp
@@ -132,12 +132,25 @@ PdfObjectStream & PdfContents::GetStreamForAppending(PdfStreamAppendFlags flags)
 
 void PdfContents::copyTo(OutputStream& stream, const PdfArray& arr) const
 {
+    bool separate = false;
     for (unsigned i = 0; i < arr.GetSize(); i++)
     {
         const PdfObjectStream* objStream;
         auto streamObj = arr.FindAt(i);
         if (streamObj != nullptr && (objStream = streamObj->GetStream()) != nullptr)
-            objStream->CopyTo(stream);
+        {
+            charbuff buffer;
+            objStream->CopyTo(buffer);
+            if (buffer.size() == 0)
+                continue;
+
+            // A stream may end without white space after its last token
+            if (separate)
+                stream.Write("\n");
+
+            stream.Write(buffer);
+            separate = true;
+        }
     }
 }
 
-- 
2.43.0


From 1f6d042ea63a2ee46cc85b28333f4906fa7ebba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:56:59 +0000
Subject: [PATCH 062/128] fix: complete content and inherited resources of
 forms made from pages

---
 src/pdfmm/base/PdfDocument.cpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/pdfmm/base/PdfDocument.cpp b/src/pdfmm/base/PdfDocument.cpp
index 57ffb7e..4876c30 100644
--- a/src/pdfmm/base/PdfDocument.cpp
+++ b/src/pdfmm/base/PdfDocument.cpp
@@ -351,8 +351,20 @@ PdfRect PdfDocument::FillXObjectFromPage(PdfXObjectForm& xobj, const PdfPage& pa
         box.Intersect(page.GetTrimBox());
 
     // link resources from external doc to x-object
+    // NOTE: resources may be inherited, in which case they are looked up in the source page
+    const PdfObject* resources = nullptr;
     if (pageObj.IsDictionary() && pageObj.GetDictionary().HasKey("Resources"))
+    {
         xobj.GetObject().GetDictionary().AddKey("Resources", *pageObj.GetDictionary().GetKey("Resources"));
+    }
+    else if ((resources = page.GetDictionary().FindKeyParent("Resources")) != nullptr)
+    {
+        PdfObject resourcesCopy(*resources);
+        if (difference != 0)
+            fixObjectReferences(resourcesCopy, difference);
+
+        xobj.GetObject().GetDictionary().AddKey("Resources", resourcesCopy);
+    }
 
     // copy top-level content from external doc to x-object
     if (pageObj.IsDictionary() && pageObj.GetDictionary().HasKey("Contents"))
@@ -387,6 +399,8 @@ PdfRect PdfDocument::FillXObjectFromPage(PdfXObjectForm& xobj, const PdfPage& pa
                             charbuff contStreamBuffer;
                             contStream.CopyTo(contStreamBuffer);
                             output.Write(contStreamBuffer);
+                            // A stream may end without white space after its last token
+                            output.Write("\n");
                             break;
                         }
                         else
-- 
2.43.0


From 60ddbf73e81b736c0c96dbf83ab9c9aa294aa6f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:56:59 +0000
Subject: [PATCH 063/128] fix: keep other color spaces of the page when setting
 an ICC profile

---
 src/pdfmm/base/PdfPage.cpp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/pdfmm/base/PdfPage.cpp b/src/pdfmm/base/PdfPage.cpp
index 0585252..9891bb9 100644
--- a/src/pdfmm/base/PdfPage.cpp
+++ b/src/pdfmm/base/PdfPage.cpp
@@ -393,11 +393,8 @@ void PdfPage::SetICCProfile(const string_view& csTag, InputStream& stream,
     array.Add(PdfName("ICCBased"));
     array.Add(iccObject.GetIndirectReference());
 
-    PdfDictionary iccBasedDictionary;
-    iccBasedDictionary.AddKey(csTag, array);
-
     // Add the colorspace to resource
-    GetOrCreateResources().GetDictionary().AddKey("ColorSpace", iccBasedDictionary);
+    GetOrCreateResources().AddResource("ColorSpace", csTag, array);
 }
 
 PdfContents& PdfPage::GetOrCreateContents()
-- 
2.43.0


From acd679ee53ebb19c1b334b63a3c104c3cacee978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:56:59 +0000
Subject: [PATCH 064/128] fix: write graphics state operators also if the
 painter was set to the same value before

---
 src/pdfmm/base/PdfPainter.cpp | 24 +++---------------------
 1 file changed, 3 insertions(+), 21 deletions(-)

diff --git a/src/pdfmm/base/PdfPainter.cpp b/src/pdfmm/base/PdfPainter.cpp
index 7c6df66..94475d9 100644
--- a/src/pdfmm/base/PdfPainter.cpp
+++ b/src/pdfmm/base/PdfPainter.cpp
@@ -168,6 +168,9 @@ void PdfPainter::finishDrawing()
 
     // Reset temporary stream
     m_tmpStream.Clear();
+
+    // The transformation doesn't apply to what is drawn next
+    m_GraphicsState.CTM = Matrix();
 }
 
 void PdfPainter::SetStrokingShadingPattern(const PdfShadingPattern& pattern)
@@ -1575,63 +1578,42 @@ void PdfGraphicsStateWrapper::SetCurrentMatrix(const Matrix& matrix)
 
 void PdfGraphicsStateWrapper::SetLineWidth(double lineWidth)
 {
-    if (m_state->LineWidth == lineWidth)
-        return;
-
     m_state->LineWidth = lineWidth;
     m_painter->SetLineWidth(m_state->LineWidth);
 }
 
 void PdfGraphicsStateWrapper::SetMiterLevel(double value)
 {
-    if (m_state->MiterLimit == value)
-        return;
-
     m_state->MiterLimit = value;
     m_painter->SetMiterLimit(m_state->MiterLimit);
 }
 
 void PdfGraphicsStateWrapper::SetLineCapStyle(PdfLineCapStyle capStyle)
 {
-    if (m_state->LineCapStyle == capStyle)
-        return;
-
     m_state->LineCapStyle = capStyle;
     m_painter->SetLineCapStyle(m_state->LineCapStyle);
 }
 
 void PdfGraphicsStateWrapper::SetLineJoinStyle(PdfLineJoinStyle joinStyle)
 {
-    if (m_state->LineJoinStyle == joinStyle)
-        return;
-
     m_state->LineJoinStyle = joinStyle;
     m_painter->SetLineJoinStyle(m_state->LineJoinStyle);
 }
 
 void PdfGraphicsStateWrapper::SetRenderingIntent(const string_view& intent)
 {
-    if (m_state->RenderingIntent == intent)
-        return;
-
     m_state->RenderingIntent = intent;
     m_painter->SetRenderingIntent(m_state->RenderingIntent);
 }
 
 void PdfGraphicsStateWrapper::SetFillColor(const PdfColor& color)
 {
-    if (m_state->FillColor == color)
-        return;
-
     m_state->FillColor = color;
     m_painter->SetFillColor(m_state->FillColor);
 }
 
 void PdfGraphicsStateWrapper::SetStrokeColor(const PdfColor& color)
 {
-    if (m_state->StrokeColor == color)
-        return;
-
     m_state->StrokeColor = color;
     m_painter->SetStrokeColor(m_state->StrokeColor);
 }
-- 
2.43.0


From 7514fd5ed82e6dc72fdde05b4dd4acf286d52945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:38 +0000
Subject: [PATCH 065/128] fix: keep inherited attributes of pages moved within
 their page tree node

---
 src/pdfmm/base/PdfPageCollection.cpp | 30 ++++++++++------------------
 1 file changed, 11 insertions(+), 19 deletions(-)

diff --git a/src/pdfmm/base/PdfPageCollection.cpp b/src/pdfmm/base/PdfPageCollection.cpp
index a445b67..2a923a0 100644
--- a/src/pdfmm/base/PdfPageCollection.cpp
+++ b/src/pdfmm/base/PdfPageCollection.cpp
@@ -247,29 +247,21 @@ void PdfPageCollection::movePage(unsigned fromIndex, unsigned toIndex)
     if (pageNode == nullptr || parents.size() == 0)
         PDFMM_RAISE_ERROR(PdfErrorCode::PageNotFound);
 
-    PdfObjectList newParents;
-    (void)this->getPageNode(toIndex, this->GetRoot(), newParents);
-    if (newParents.size() == 0)
-        PDFMM_RAISE_ERROR(PdfErrorCode::PageNotFound);
-
     auto page = m_cache.GetPage(fromIndex);
-    if (newParents.back() != parents.back())
+    // Keep the attributes that the page inherits where it is now
+    for (auto key : { "Resources", "MediaBox", "CropBox", "Rotate" })
     {
-        // Keep the attributes that the page inherits where it is now
-        for (auto key : { "Resources", "MediaBox", "CropBox", "Rotate" })
-        {
-            if (pageNode->GetDictionary().HasKey(key))
-                continue;
+        if (pageNode->GetDictionary().HasKey(key))
+            continue;
 
-            auto attribute = pageNode->GetDictionary().FindKeyParent(key);
-            if (attribute == nullptr)
-                continue;
+        auto attribute = pageNode->GetDictionary().FindKeyParent(key);
+        if (attribute == nullptr)
+            continue;
 
-            // NOTE: AddKeyIndirectSafe makes a copy of direct objects
-            pageNode->GetDictionary().AddKeyIndirectSafe(key, *attribute);
-            if (page != nullptr && string_view(key) == "Resources")
-                page->m_Resources.reset(new PdfResources(pageNode->GetDictionary().MustFindKey(key)));
-        }
+        // NOTE: AddKeyIndirectSafe makes a copy of direct objects
+        pageNode->GetDictionary().AddKeyIndirectSafe(key, *attribute);
+        if (page != nullptr && string_view(key) == "Resources")
+            page->m_Resources.reset(new PdfResources(pageNode->GetDictionary().MustFindKey(key)));
     }
 
     unsigned kidsIndex = (unsigned)this->getPosInKids(*pageNode, parents.back());
-- 
2.43.0


From 8f7e757597482b508aa15e2b3abd104764fcfe47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:38 +0000
Subject: [PATCH 066/128] fix: neither lose nor duplicate earlier content when
 painting again on a form

---
 src/pdfmm/base/PdfPainter.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/pdfmm/base/PdfPainter.cpp b/src/pdfmm/base/PdfPainter.cpp
index 94475d9..7dc71f2 100644
--- a/src/pdfmm/base/PdfPainter.cpp
+++ b/src/pdfmm/base/PdfPainter.cpp
@@ -129,7 +129,7 @@ void PdfPainter::finishDrawing()
             }
             else
             {
-                output = m_stream->GetOutputStream();
+                output = m_stream->GetOutputStream(true);
                 // there is already content here - so let's assume we are appending
                 // as such, we MUST put in a "space" to separate whatever we do.
                 output.Write("\n");
@@ -147,9 +147,12 @@ void PdfPainter::finishDrawing()
             }
             else
             {
-                output = m_stream->GetOutputStream(true);
+                output = m_stream->GetOutputStream();
                 output.Write("q\n");
                 output.Write(buffer);
+                // The content may end without white space after its last token
+                if (buffer.back() != '\n' && buffer.back() != ' ')
+                    output.Write("\n");
                 output.Write("Q\n");
             }
         }
-- 
2.43.0


From 825e33f2fb8c073ff242a49874532129f337d166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:38 +0000
Subject: [PATCH 067/128] fix: add the font to the resources of each canvas
 that text is drawn on

---
 src/pdfmm/base/PdfPainter.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pdfmm/base/PdfPainter.cpp b/src/pdfmm/base/PdfPainter.cpp
index 7dc71f2..4cca043 100644
--- a/src/pdfmm/base/PdfPainter.cpp
+++ b/src/pdfmm/base/PdfPainter.cpp
@@ -1449,6 +1449,8 @@ void PdfPainter::SetFont(const PdfFont* font, double fontSize)
 void PdfPainter::setFont(const PdfFont* font, double fontSize)
 {
     checkStream();
+    // The canvas may have changed since the font was set
+    this->addToPageResources("Font", font->GetIdentifier(), font->GetObject());
     m_tmpStream << "/" << font->GetIdentifier().GetString()
         << " " << fontSize
         << " Tf" << endl;
-- 
2.43.0


From cb6146e39584c691b89ecd1937c229d6d683c548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:51 +0000
Subject: [PATCH 068/128] fix: finish fonts before collecting garbage when
 saving

---
 src/pdfmm/base/PdfMemDocument.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pdfmm/base/PdfMemDocument.cpp b/src/pdfmm/base/PdfMemDocument.cpp
index 0878cba..8e0070e 100644
--- a/src/pdfmm/base/PdfMemDocument.cpp
+++ b/src/pdfmm/base/PdfMemDocument.cpp
@@ -321,13 +321,14 @@ void PdfMemDocument::beforeWrite(PdfSaveOptions opts)
         GetMetadata().SetModifyDate(PdfDate::LocalNow(), true);
     }
 
+    // NOTE: Fonts must be finished before their objects may be collected
+    GetFonts().EmbedFonts();
+
     if ((opts & PdfSaveOptions::NoCollectGarbage) ==
         PdfSaveOptions::None)
     {
         CollectGarbage();
     }
-
-    GetFonts().EmbedFonts();
 }
 
 void PdfMemDocument::SetEncrypted(const string_view& userPassword, const string_view& ownerPassword,
-- 
2.43.0


From 404831b9d52684a072996e2e030907f897ba6e6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:16:05 +0000
Subject: [PATCH 069/128] fix: initialize metadata before setting the author or
 creating XMP metadata

Otherwise the XMP metadata isn't updated, or existing dates and XMP metadata get lost
---
 src/pdfmm/base/PdfMetadata.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pdfmm/base/PdfMetadata.cpp b/src/pdfmm/base/PdfMetadata.cpp
index 3b41bd0..bc32320 100644
--- a/src/pdfmm/base/PdfMetadata.cpp
+++ b/src/pdfmm/base/PdfMetadata.cpp
@@ -44,6 +44,7 @@ const nullable<PdfString>& PdfMetadata::GetTitle() const
 
 void PdfMetadata::SetAuthor(nullable<const PdfString&> author, bool syncXMP)
 {
+    ensureInitialized();
     if (m_metadata.Author == author)
         return;
 
@@ -303,6 +304,7 @@ unique_ptr<PdfXMPPacket> PdfMetadata::TakeXMPPacket()
 
 void PdfMetadata::EnsureXMPMetadata()
 {
+    ensureInitialized();
     if (m_packet == nullptr)
         mm::UpdateOrCreateXMPMetadata(m_packet, m_metadata);
 
-- 
2.43.0


From 2c0145587fd33914b15358db59cd7bf12975138b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:16:05 +0000
Subject: [PATCH 070/128] fix: forget the metadata of the previous document
 when another one is loaded

---
 src/pdfmm/base/PdfDocument.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pdfmm/base/PdfDocument.cpp b/src/pdfmm/base/PdfDocument.cpp
index 4876c30..139cfe4 100644
--- a/src/pdfmm/base/PdfDocument.cpp
+++ b/src/pdfmm/base/PdfDocument.cpp
@@ -72,6 +72,7 @@ PdfDocument::~PdfDocument()
 void PdfDocument::Clear() 
 {
     m_FontManager.Clear();
+    m_Metadata.Invalidate();
     m_Catalog = nullptr;
     m_Info = nullptr;
     m_Pages = nullptr;
-- 
2.43.0


From e75ea4555b00425df1bf7cdb01adee8d2856d211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:16:05 +0000
Subject: [PATCH 071/128] fix: keep values with special characters in XMP
 metadata

---
 src/pdfmm/private/XMPUtils.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/pdfmm/private/XMPUtils.cpp b/src/pdfmm/private/XMPUtils.cpp
index f653d4d..7553963 100644
--- a/src/pdfmm/private/XMPUtils.cpp
+++ b/src/pdfmm/private/XMPUtils.cpp
@@ -283,7 +283,8 @@ void addXMPProperty(xmlDocPtr doc, xmlNodePtr description,
         }
         default:
         {
-            xmlNodeSetContent(element, XMLCHAR values[0].data());
+            // NOTE: Don't set the content directly, or entities in the value are parsed
+            xmlNodeAddContent(element, XMLCHAR values[0].data());
             break;
         }
     }
@@ -330,7 +331,8 @@ void utls::SetListNodeContent(xmlDocPtr doc, xmlNodePtr node, XMPListType seqTyp
                 THROW_LIBXML_EXCEPTION(utls::Format("Can't set xml:lang attribute on rdf:li node"));
         }
 
-        xmlNodeSetContent(liElem, XMLCHAR view.data());
+        // NOTE: Don't set the content directly, or entities in the value are parsed
+        xmlNodeAddContent(liElem, XMLCHAR view.data());
     }
 
     newNode = innerElem->children;
-- 
2.43.0


From 6408bdbd1ce567a72bace3ae98b35f49093ab4c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:16:05 +0000
Subject: [PATCH 072/128] fix: read the creator tool from XMP metadata

---
 src/pdfmm/private/XMPUtils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pdfmm/private/XMPUtils.cpp b/src/pdfmm/private/XMPUtils.cpp
index 7553963..4c415fb 100644
--- a/src/pdfmm/private/XMPUtils.cpp
+++ b/src/pdfmm/private/XMPUtils.cpp
@@ -97,7 +97,7 @@ PdfXMPMetadata mm::GetXMPMetadata(const string_view& xmpview, unique_ptr<PdfXMPP
 
     childElement = utls::FindChildElement(description, "xmp", "CreatorTool");
     if (childElement != nullptr)
-        metadata.Creator = getListElementText(childElement);
+        metadata.Creator = getElementText(childElement);
 
     childElement = utls::FindChildElement(description, "pdf", "Producer");
     if (childElement != nullptr)
-- 
2.43.0


From 729f62d21ffad41f8104a4653f8d44e8d54355a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:16:05 +0000
Subject: [PATCH 073/128] fix: don't fail to read or save documents with
 invalid dates in their metadata

---
 src/pdfmm/base/PdfInfo.cpp     | 10 ++++++----
 src/pdfmm/private/XMPUtils.cpp | 15 +++++++++++----
 2 files changed, 17 insertions(+), 8 deletions(-)

diff --git a/src/pdfmm/base/PdfInfo.cpp b/src/pdfmm/base/PdfInfo.cpp
index 672721c..40d908b 100644
--- a/src/pdfmm/base/PdfInfo.cpp
+++ b/src/pdfmm/base/PdfInfo.cpp
@@ -147,20 +147,22 @@ nullable<const PdfString&> PdfInfo::GetProducer() const
 
 nullable<PdfDate> PdfInfo::GetCreationDate() const
 {
+    PdfDate date;
     auto datestr = this->getStringFromInfoDict("CreationDate");
-    if (datestr == nullptr)
+    if (datestr == nullptr || !PdfDate::TryParse(*datestr, date))
         return nullptr;
     else
-        return PdfDate::Parse(*datestr);
+        return date;
 }
 
 nullable<PdfDate> PdfInfo::GetModDate() const
 {
+    PdfDate date;
     auto datestr = this->getStringFromInfoDict("ModDate");
-    if (datestr == nullptr)
+    if (datestr == nullptr || !PdfDate::TryParse(*datestr, date))
         return nullptr;
     else
-        return PdfDate::Parse(*datestr);
+        return date;
 }
 
 nullable<const PdfName&> PdfInfo::GetTrapped() const
diff --git a/src/pdfmm/private/XMPUtils.cpp b/src/pdfmm/private/XMPUtils.cpp
index 4c415fb..79c78c9 100644
--- a/src/pdfmm/private/XMPUtils.cpp
+++ b/src/pdfmm/private/XMPUtils.cpp
@@ -103,13 +103,20 @@ PdfXMPMetadata mm::GetXMPMetadata(const string_view& xmpview, unique_ptr<PdfXMPP
     if (childElement != nullptr)
         metadata.Producer = getElementText(childElement);
 
+    PdfDate date;
     childElement = utls::FindChildElement(description, "xmp", "CreateDate");
-    if (childElement != nullptr && (text = getElementText(childElement)) != nullptr)
-        metadata.CreationDate = PdfDate::ParseW3C(*text);
+    if (childElement != nullptr && (text = getElementText(childElement)) != nullptr
+        && PdfDate::TryParseW3C(*text, date))
+    {
+        metadata.CreationDate = date;
+    }
 
     childElement = utls::FindChildElement(description, "xmp", "ModifyDate");
-    if (childElement != nullptr && (text = getElementText(childElement)) != nullptr)
-        metadata.ModDate = PdfDate::ParseW3C(*text);
+    if (childElement != nullptr && (text = getElementText(childElement)) != nullptr
+        && PdfDate::TryParseW3C(*text, date))
+    {
+        metadata.ModDate = date;
+    }
 
     return metadata;
 }
-- 
2.43.0


From f7eea424832fe6c90c45192af5dd76cd483809c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:16:05 +0000
Subject: [PATCH 074/128] fix: read dates without month or day, or with a
 fraction of the second

---
 src/pdfmm/base/PdfDate.cpp | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/pdfmm/base/PdfDate.cpp b/src/pdfmm/base/PdfDate.cpp
index 9683b4c..fc45ce7 100644
--- a/src/pdfmm/base/PdfDate.cpp
+++ b/src/pdfmm/base/PdfDate.cpp
@@ -199,9 +199,10 @@ bool PdfDate::operator!=(const PdfDate& rhs) const
 
 bool tryParse(const string_view& dateStr, chrono::seconds& secondsFromEpoch, nullable<chrono::minutes>& minutesFromUtc)
 {
+    // NOTE: Parts that are left out have these default values
     int y = 0;
-    int m = 0;
-    int d = 0;
+    int m = 1;
+    int d = 1;
     int h = 0;
     int M = 0;
     int s = 0;
@@ -291,9 +292,10 @@ End:
 
 bool tryParseW3C(const string_view& dateStr, chrono::seconds& secondsFromEpoch, nullable<chrono::minutes>& minutesFromUtc)
 {
+    // NOTE: Parts that are left out have these default values
     int y = 0;
-    int m = 0;
-    int d = 0;
+    int m = 1;
+    int d = 1;
     int h = 0;
     int M = 0;
     int s = 0;
@@ -338,6 +340,13 @@ bool tryParseW3C(const string_view& dateStr, chrono::seconds& secondsFromEpoch,
     if (!parseFixLenNumber(cursor, 2, 0, 59, s))
         return false;
 
+    // Skip the fraction of the second
+    if (*cursor == '.')
+    {
+        do cursor++;
+        while (isdigit(*cursor));
+    }
+
     if (!tryReadShiftChar(cursor, zoneShift))
         goto End;
 
-- 
2.43.0


From cf29fdf6608fd88c27fd1bd6bc292521c2436ce0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:16:05 +0000
Subject: [PATCH 075/128] fix: synchronize XMP metadata also if it's stale
 since loading, or if saving within the same second

---
 src/pdfmm/base/PdfMemDocument.cpp | 3 +++
 src/pdfmm/base/PdfMetadata.cpp    | 9 ++++++++-
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/pdfmm/base/PdfMemDocument.cpp b/src/pdfmm/base/PdfMemDocument.cpp
index 8e0070e..0aed2ae 100644
--- a/src/pdfmm/base/PdfMemDocument.cpp
+++ b/src/pdfmm/base/PdfMemDocument.cpp
@@ -319,6 +319,9 @@ void PdfMemDocument::beforeWrite(PdfSaveOptions opts)
         PdfSaveOptions::None)
     {
         GetMetadata().SetModifyDate(PdfDate::LocalNow(), true);
+
+        // NOTE: The date may be the same as before
+        GetMetadata().SyncXMPMetadata(false);
     }
 
     // NOTE: Fonts must be finished before their objects may be collected
diff --git a/src/pdfmm/base/PdfMetadata.cpp b/src/pdfmm/base/PdfMetadata.cpp
index bc32320..392c2ec 100644
--- a/src/pdfmm/base/PdfMetadata.cpp
+++ b/src/pdfmm/base/PdfMetadata.cpp
@@ -383,7 +383,14 @@ void PdfMetadata::ensureInitialized()
         if (m_metadata.ModDate == nullptr)
             m_metadata.ModDate = xmpMetadata.ModDate;
         m_metadata.PdfaLevel = xmpMetadata.PdfaLevel;
-        m_xmpSynced = true;
+        m_xmpSynced = m_metadata.Title == xmpMetadata.Title
+            && m_metadata.Author == xmpMetadata.Author
+            && m_metadata.Subject == xmpMetadata.Subject
+            && m_metadata.Keywords == xmpMetadata.Keywords
+            && m_metadata.Creator == xmpMetadata.Creator
+            && m_metadata.Producer == xmpMetadata.Producer
+            && m_metadata.CreationDate == xmpMetadata.CreationDate
+            && m_metadata.ModDate == xmpMetadata.ModDate;
     }
 
     m_initialized = true;
-- 
2.43.0


From 9254c9f3ed52575f3058171b24c40cd1b4646344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:16:05 +0000
Subject: [PATCH 076/128] fix: determine the offset of the local time also if
 it's ambiguous

---
 src/pdfmm/base/PdfDate.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/pdfmm/base/PdfDate.cpp b/src/pdfmm/base/PdfDate.cpp
index fc45ce7..4048143 100644
--- a/src/pdfmm/base/PdfDate.cpp
+++ b/src/pdfmm/base/PdfDate.cpp
@@ -417,11 +417,9 @@ chrono::seconds getSecondsFromEpoch()
 // date library runtime support
 int getLocalOffesetFromUTCMinutes()
 {
+    // NOTE: Don't convert the local time back, it may be ambiguous
     time_t t = time(nullptr);
-    struct tm* locg = localtime(&t);
-    struct tm locl;
-    memcpy(&locl, locg, sizeof(struct tm));
-    return (int)(timegm(locg) - mktime(&locl)) / 60;
+    return (int)((timegm(localtime(&t)) - t) / 60);
 }
 
 bool tryReadShiftChar(const char*& in, int& zoneShift)
-- 
2.43.0


From 9bb4ba61fbdcc2630624a0281d65c26a12ca3df7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:17:21 +0000
Subject: [PATCH 077/128] fix: set metadata values that differ from the present
 ones

The comparison of a nullable with a nullable reference was inverted
---
 src/pdfmm/common/nullable.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pdfmm/common/nullable.h b/src/pdfmm/common/nullable.h
index 1fbb79e..99b2fa1 100644
--- a/src/pdfmm/common/nullable.h
+++ b/src/pdfmm/common/nullable.h
@@ -241,12 +241,12 @@ namespace COMMON_NAMESPACE
     bool operator==(const nullable<std::decay_t<T2>>& lhs, const nullable<T2&>& rhs)
     {
         if (lhs.m_hasValue != rhs.m_hasValue)
-            return true;
+            return false;
 
         if (lhs.m_hasValue)
-            return lhs.m_value != *rhs.m_value;
+            return lhs.m_value == *rhs.m_value;
         else
-            return false;
+            return true;
     }
 
     template <typename T2>
-- 
2.43.0


From 3138f3c6ff100724382335a4ea930126d1f03c71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:17:21 +0000
Subject: [PATCH 078/128] fix: keep special characters in XMP properties that
 are attributes

---
 src/pdfmm/base/PdfXMPPacket.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pdfmm/base/PdfXMPPacket.cpp b/src/pdfmm/base/PdfXMPPacket.cpp
index 492e3bd..6dbf7c7 100644
--- a/src/pdfmm/base/PdfXMPPacket.cpp
+++ b/src/pdfmm/base/PdfXMPPacket.cpp
@@ -235,7 +235,7 @@ void normalizeElement(xmlDocPtr doc, xmlNodePtr elem)
             continue;
 
         auto value = utls::GetAttributeValue(attr);
-        if (xmlNewChild(elem, attr->ns, attr->name, XMLCHAR value.data()) == nullptr)
+        if (xmlNewTextChild(elem, attr->ns, attr->name, XMLCHAR value.data()) == nullptr)
             THROW_LIBXML_EXCEPTION("Can't create value replacement node");
 
         attribsToRemove.push_back(attr);
-- 
2.43.0


From aa43127f48765ce59a50e4e9c40f7ae2c6f96481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:53 +0000
Subject: [PATCH 079/128] fix: stamp the document information also if the same
 date is in the XMP metadata only

---
 src/pdfmm/base/PdfMetadata.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/pdfmm/base/PdfMetadata.cpp b/src/pdfmm/base/PdfMetadata.cpp
index 392c2ec..f198a87 100644
--- a/src/pdfmm/base/PdfMetadata.cpp
+++ b/src/pdfmm/base/PdfMetadata.cpp
@@ -197,8 +197,13 @@ const nullable<PdfDate>& PdfMetadata::GetCreationDate() const
 void PdfMetadata::SetModifyDate(nullable<PdfDate> date, bool syncXMP)
 {
     ensureInitialized();
-    if (m_metadata.ModDate == date)
+    // NOTE: The date may be found in the XMP metadata only
+    auto info = m_doc->GetInfo();
+    if (m_metadata.ModDate == date
+        && (info == nullptr ? nullable<PdfDate>() : info->GetModDate()) == date)
+    {
         return;
+    }
 
     m_doc->GetOrCreateInfo().SetModDate(date);
     m_metadata.ModDate = date;
-- 
2.43.0


From 8c46b305576f2b44fdc7d5ec4693da7e637c6d1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:27:04 +0000
Subject: [PATCH 080/128] fix: report image files that can't be opened

---
 src/pdfmm/base/PdfImage.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/pdfmm/base/PdfImage.cpp b/src/pdfmm/base/PdfImage.cpp
index 138abe2..8f04236 100644
--- a/src/pdfmm/base/PdfImage.cpp
+++ b/src/pdfmm/base/PdfImage.cpp
@@ -491,6 +491,9 @@ void PdfImage::ExportTo(charbuff& buff, PdfExportFormat format, PdfArray args) c
 void PdfImage::loadFromJpeg(const string_view& filename)
 {
     FILE* file = utls::fopen(filename, "rb");
+    if (file == nullptr)
+        PDFMM_RAISE_ERROR_INFO(PdfErrorCode::FileNotFound, filename);
+
     jpeg_decompress_struct ctx;
     JpegErrorHandler jerr;
     try
@@ -995,6 +998,8 @@ void PdfImage::loadFromTiffData(const unsigned char* data, size_t len)
 void PdfImage::loadFromPng(const std::string_view& filename)
 {
     FILE* file = utls::fopen(filename, "rb");
+    if (file == nullptr)
+        PDFMM_RAISE_ERROR_INFO(PdfErrorCode::FileNotFound, filename);
 
     try
     {
-- 
2.43.0


From a07e18386ce3e6022ce0dab6aef43104d8a7d26b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:27:04 +0000
Subject: [PATCH 081/128] fix: close TIFF images exactly once

---
 src/pdfmm/base/PdfImage.cpp | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/src/pdfmm/base/PdfImage.cpp b/src/pdfmm/base/PdfImage.cpp
index 8f04236..60e0964 100644
--- a/src/pdfmm/base/PdfImage.cpp
+++ b/src/pdfmm/base/PdfImage.cpp
@@ -690,19 +690,16 @@ void PdfImage::loadFromTiffHandle(void* handle)
     // TODO: implement special cases
     if (TIFFIsTiled(hInTiffHandle))
     {
-        TIFFClose(hInTiffHandle);
         PDFMM_RAISE_ERROR(PdfErrorCode::UnsupportedImageFormat);
     }
 
     if (planarConfig != PLANARCONFIG_CONTIG && colorChannels != 1)
     {
-        TIFFClose(hInTiffHandle);
         PDFMM_RAISE_ERROR(PdfErrorCode::UnsupportedImageFormat);
     }
 
     if (orientation != ORIENTATION_TOPLEFT)
     {
-        TIFFClose(hInTiffHandle);
         PDFMM_RAISE_ERROR(PdfErrorCode::UnsupportedImageFormat);
     }
 
@@ -727,7 +724,6 @@ void PdfImage::loadFromTiffHandle(void* handle)
             }
             else
             {
-                TIFFClose(hInTiffHandle);
                 PDFMM_RAISE_ERROR(PdfErrorCode::UnsupportedImageFormat);
             }
             break;
@@ -747,7 +743,6 @@ void PdfImage::loadFromTiffHandle(void* handle)
             }
             else
             {
-                TIFFClose(hInTiffHandle);
                 PDFMM_RAISE_ERROR(PdfErrorCode::UnsupportedImageFormat);
             }
             break;
@@ -756,7 +751,6 @@ void PdfImage::loadFromTiffHandle(void* handle)
         {
             if (bitsPixel != 24)
             {
-                TIFFClose(hInTiffHandle);
                 PDFMM_RAISE_ERROR(PdfErrorCode::UnsupportedImageFormat);
             }
             info.ColorSpace = PdfColorSpace::DeviceRGB;
@@ -766,7 +760,6 @@ void PdfImage::loadFromTiffHandle(void* handle)
         {
             if (bitsPixel != 32)
             {
-                TIFFClose(hInTiffHandle);
                 PDFMM_RAISE_ERROR(PdfErrorCode::UnsupportedImageFormat);
             }
             info.ColorSpace = PdfColorSpace::DeviceCMYK;
@@ -811,7 +804,6 @@ void PdfImage::loadFromTiffHandle(void* handle)
 
         default:
         {
-            TIFFClose(hInTiffHandle);
             PDFMM_RAISE_ERROR(PdfErrorCode::UnsupportedImageFormat);
             break;
         }
@@ -826,7 +818,6 @@ void PdfImage::loadFromTiffHandle(void* handle)
             &buffer[row * scanlineSize],
             row) == (-1))
         {
-            TIFFClose(hInTiffHandle);
             PDFMM_RAISE_ERROR(PdfErrorCode::UnsupportedImageFormat);
         }
     }
@@ -988,7 +979,17 @@ void PdfImage::loadFromTiffData(const unsigned char* data, size_t len)
     if (hInHandle == nullptr)
         PDFMM_RAISE_ERROR(PdfErrorCode::InvalidHandle);
 
-    loadFromTiffHandle(hInHandle);
+    try
+    {
+        loadFromTiffHandle(hInHandle);
+    }
+    catch (...)
+    {
+        TIFFClose(hInHandle);
+        throw;
+    }
+
+    TIFFClose(hInHandle);
 }
 
 #endif // PDFMM_HAVE_TIFF_LIB
-- 
2.43.0


From 7ddec41eb72cff2d7affc564147c1b14645da08c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:27:04 +0000
Subject: [PATCH 082/128] fix: keep the pixels of bilevel, inverted and 16 bit
 TIFF images

---
 src/pdfmm/base/PdfImage.cpp | 70 +++++++++++++++++++------------------
 1 file changed, 36 insertions(+), 34 deletions(-)

diff --git a/src/pdfmm/base/PdfImage.cpp b/src/pdfmm/base/PdfImage.cpp
index 60e0964..96a6f55 100644
--- a/src/pdfmm/base/PdfImage.cpp
+++ b/src/pdfmm/base/PdfImage.cpp
@@ -667,12 +667,15 @@ void PdfImage::loadFromTiffHandle(void* handle)
     uint16 planarConfig, photoMetric, orientation;
     int32 resolutionUnit;
 
-    TIFFGetField(hInTiffHandle, TIFFTAG_IMAGEWIDTH, &width);
-    TIFFGetField(hInTiffHandle, TIFFTAG_IMAGELENGTH, &height);
+    if (TIFFGetField(hInTiffHandle, TIFFTAG_IMAGEWIDTH, &width) != 1
+        || TIFFGetField(hInTiffHandle, TIFFTAG_IMAGELENGTH, &height) != 1
+        || TIFFGetField(hInTiffHandle, TIFFTAG_PHOTOMETRIC, &photoMetric) != 1)
+    {
+        PDFMM_RAISE_ERROR(PdfErrorCode::UnsupportedImageFormat);
+    }
     TIFFGetFieldDefaulted(hInTiffHandle, TIFFTAG_BITSPERSAMPLE, &bitsPerSample);
     TIFFGetFieldDefaulted(hInTiffHandle, TIFFTAG_SAMPLESPERPIXEL, &samplesPerPixel);
     TIFFGetFieldDefaulted(hInTiffHandle, TIFFTAG_PLANARCONFIG, &planarConfig);
-    TIFFGetFieldDefaulted(hInTiffHandle, TIFFTAG_PHOTOMETRIC, &photoMetric);
     TIFFGetFieldDefaulted(hInTiffHandle, TIFFTAG_EXTRASAMPLES, &extraSamples, &sampleInfo);
     TIFFGetFieldDefaulted(hInTiffHandle, TIFFTAG_ORIENTATION, &orientation);
 
@@ -711,45 +714,31 @@ void PdfImage::loadFromTiffHandle(void* handle)
     {
         case PHOTOMETRIC_MINISBLACK:
         {
-            if (bitsPixel == 1)
-            {
-                PdfArray decode;
-                decode.insert(decode.end(), PdfObject(static_cast<int64_t>(0)));
-                decode.insert(decode.end(), PdfObject(static_cast<int64_t>(1)));
-                info.Decode = std::move(decode);
-            }
-            else if (bitsPixel == 8 || bitsPixel == 16)
-            {
-                info.ColorSpace = PdfColorSpace::DeviceGray;
-            }
-            else
-            {
+            if (samplesPerPixel != 1 || (bitsPixel != 1 && bitsPixel != 8 && bitsPixel != 16))
                 PDFMM_RAISE_ERROR(PdfErrorCode::UnsupportedImageFormat);
-            }
+
+            PdfArray decode;
+            decode.insert(decode.end(), PdfObject(static_cast<int64_t>(0)));
+            decode.insert(decode.end(), PdfObject(static_cast<int64_t>(1)));
+            info.Decode = std::move(decode);
+            info.ColorSpace = PdfColorSpace::DeviceGray;
             break;
         }
         case PHOTOMETRIC_MINISWHITE:
         {
-            if (bitsPixel == 1)
-            {
-                PdfArray decode;
-                decode.insert(decode.end(), PdfObject(static_cast<int64_t>(1)));
-                decode.insert(decode.end(), PdfObject(static_cast<int64_t>(0)));
-                info.Decode = std::move(decode);
-            }
-            else if (bitsPixel == 8 || bitsPixel == 16)
-            {
-                info.ColorSpace = PdfColorSpace::DeviceGray;
-            }
-            else
-            {
+            if (samplesPerPixel != 1 || (bitsPixel != 1 && bitsPixel != 8 && bitsPixel != 16))
                 PDFMM_RAISE_ERROR(PdfErrorCode::UnsupportedImageFormat);
-            }
+
+            PdfArray decode;
+            decode.insert(decode.end(), PdfObject(static_cast<int64_t>(1)));
+            decode.insert(decode.end(), PdfObject(static_cast<int64_t>(0)));
+            info.Decode = std::move(decode);
+            info.ColorSpace = PdfColorSpace::DeviceGray;
             break;
         }
         case PHOTOMETRIC_RGB:
         {
-            if (bitsPixel != 24)
+            if (bitsPixel != 24 || samplesPerPixel != 3)
             {
                 PDFMM_RAISE_ERROR(PdfErrorCode::UnsupportedImageFormat);
             }
@@ -758,7 +747,7 @@ void PdfImage::loadFromTiffHandle(void* handle)
         }
         case PHOTOMETRIC_SEPARATED:
         {
-            if (bitsPixel != 32)
+            if (bitsPixel != 32 || samplesPerPixel != 4)
             {
                 PDFMM_RAISE_ERROR(PdfErrorCode::UnsupportedImageFormat);
             }
@@ -767,6 +756,9 @@ void PdfImage::loadFromTiffHandle(void* handle)
         }
         case PHOTOMETRIC_PALETTE:
         {
+            if (samplesPerPixel != 1 || bitsPixel > 8)
+                PDFMM_RAISE_ERROR(PdfErrorCode::UnsupportedImageFormat);
+
             unsigned numColors = (1 << bitsPixel);
 
             PdfArray decode;
@@ -777,7 +769,8 @@ void PdfImage::loadFromTiffHandle(void* handle)
             uint16* rgbRed;
             uint16* rgbGreen;
             uint16* rgbBlue;
-            TIFFGetField(hInTiffHandle, TIFFTAG_COLORMAP, &rgbRed, &rgbGreen, &rgbBlue);
+            if (TIFFGetField(hInTiffHandle, TIFFTAG_COLORMAP, &rgbRed, &rgbGreen, &rgbBlue) != 1)
+                PDFMM_RAISE_ERROR(PdfErrorCode::UnsupportedImageFormat);
 
             charbuff data(numColors * 3);
 
@@ -822,6 +815,15 @@ void PdfImage::loadFromTiffHandle(void* handle)
         }
     }
 
+#ifdef PDFMM_IS_LITTLE_ENDIAN
+    // 16 bit samples are in the byte order of the machine, but PDF wants big endian
+    if (bitsPerSample == 16)
+    {
+        for (size_t i = 0; i + 1 < bufferSize; i += 2)
+            std::swap(buffer[i], buffer[i + 1]);
+    }
+#endif
+
     SpanStreamDevice input(buffer);
     SetDataRaw(input, info);
 }
-- 
2.43.0


From f2eba278553c4d354ee0420e77cfff6715d9f18e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:27:04 +0000
Subject: [PATCH 083/128] fix: report truncated PNG images

---
 src/pdfmm/base/PdfImage.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/pdfmm/base/PdfImage.cpp b/src/pdfmm/base/PdfImage.cpp
index 96a6f55..97339f6 100644
--- a/src/pdfmm/base/PdfImage.cpp
+++ b/src/pdfmm/base/PdfImage.cpp
@@ -1052,17 +1052,19 @@ struct PngData
     PngData(const unsigned char* data, png_size_t size) :
         m_data(data), m_pos(0), m_size(size) {}
 
-    void read(png_bytep data, png_size_t length)
+    bool read(png_bytep data, png_size_t length)
     {
         if (length > m_size - m_pos)
         {
             memcpy(data, &m_data[m_pos], m_size - m_pos);
             m_pos = m_size;
+            return false;
         }
         else
         {
             memcpy(data, &m_data[m_pos], length);
             m_pos += length;
+            return true;
         }
     }
 
@@ -1079,8 +1081,7 @@ void PdfImage::loadFromPngData(const unsigned char* data, size_t len)
 
     PngData pngData(data, len);
     png_byte header[8];
-    pngData.read(header, 8);
-    if (png_sig_cmp(header, 0, 8))
+    if (!pngData.read(header, 8) || png_sig_cmp(header, 0, 8))
     {
         PDFMM_RAISE_ERROR_INFO(PdfErrorCode::UnsupportedImageFormat, "The file could not be recognized as a PNG file");
     }
@@ -1299,7 +1300,8 @@ void LoadFromPngContent(PdfImage& image, png_structp png, png_infop pnginfo)
 void pngReadData(png_structp pngPtr, png_bytep data, png_size_t length)
 {
     PngData* a = (PngData*)png_get_io_ptr(pngPtr);
-    a->read(data, length);
+    if (!a->read(data, length))
+        png_error(pngPtr, "Read Error");
 }
 
 #endif // PDFMM_HAVE_PNG_LIB
-- 
2.43.0


From 4573003b0c5b6f03d0e66e996691576a0bf7e6c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:27:04 +0000
Subject: [PATCH 084/128] fix: keep the colors and transparency of PNG images
 with a palette

---
 src/pdfmm/base/PdfImage.cpp | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/src/pdfmm/base/PdfImage.cpp b/src/pdfmm/base/PdfImage.cpp
index 97339f6..04eb18c 100644
--- a/src/pdfmm/base/PdfImage.cpp
+++ b/src/pdfmm/base/PdfImage.cpp
@@ -358,16 +358,9 @@ void PdfImage::SetDataRaw(InputStream& stream, const PdfImageInfo& info)
         dict.AddKey("Decode", info.Decode);
 
     if (info.ColorSpaceArray.GetSize() == 0)
-    {
         dict.AddKey("ColorSpace", PdfName(mm::ColorSpaceToNameRaw(info.ColorSpace)));
-    }
     else
-    {
-        PdfArray arr;
-        arr.Add(PdfName(mm::ColorSpaceToNameRaw(info.ColorSpace)));
-        arr.insert(arr.begin(), info.ColorSpaceArray.begin(), info.ColorSpaceArray.end());
         dict.AddKey("ColorSpace", info.ColorSpaceArray);
-    }
 
     GetObject().GetOrCreateStream().SetData(stream, true);
 
@@ -1200,13 +1193,13 @@ void LoadFromPngContent(PdfImage& image, png_structp png, png_infop pnginfo)
                             color = row[c];
                             break;
                         case 4:
-                            color = c % 2 ? row[c / 2] >> 4 : row[c / 2] & 0xF;
+                            color = c % 2 ? row[c / 2] & 0xF : row[c / 2] >> 4;
                             break;
                         case 2:
-                            color = (row[c / 4] >> c % 4 * 2) & 3;
+                            color = (row[c / 4] >> (3 - c % 4) * 2) & 3;
                             break;
                         case 1:
-                            color = (row[c / 4] >> c % 8) & 1;
+                            color = (row[c / 8] >> (7 - c % 8)) & 1;
                             break;
                         default:
                             PDFMM_RAISE_ERROR(PdfErrorCode::InvalidEnumValue);
@@ -1246,7 +1239,7 @@ void LoadFromPngContent(PdfImage& image, png_structp png, png_infop pnginfo)
         PdfImageInfo smaksInfo;
         smaksInfo.Width = (unsigned)width;
         smaksInfo.Height = (unsigned)height;
-        smaksInfo.BitsPerComponent = (unsigned char)depth;
+        smaksInfo.BitsPerComponent = 8;
         smaksInfo.ColorSpace = PdfColorSpace::DeviceGray;
 
         auto smakeImage = image.GetDocument().CreateImage();
@@ -1276,6 +1269,7 @@ void LoadFromPngContent(PdfImage& image, png_structp png, png_infop pnginfo)
         idxObj.GetOrCreateStream().SetData(data);
 
         PdfArray array;
+        array.Add(PdfName("Indexed"));
         array.Add(PdfName("DeviceRGB"));
         array.Add(static_cast<int64_t>(colorCount - 1));
         array.Add(idxObj.GetIndirectReference());
-- 
2.43.0


From f99cdd917b74df770f443c73a0110f5223b422f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:27:04 +0000
Subject: [PATCH 085/128] fix: don't store leftovers of the alpha channel of
 PNG images

---
 src/pdfmm/base/PdfImage.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pdfmm/base/PdfImage.cpp b/src/pdfmm/base/PdfImage.cpp
index 04eb18c..9a69856 100644
--- a/src/pdfmm/base/PdfImage.cpp
+++ b/src/pdfmm/base/PdfImage.cpp
@@ -1285,7 +1285,8 @@ void LoadFromPngContent(PdfImage& image, png_structp png, png_infop pnginfo)
     }
 
     // Set the image data and flate compress it
-    SpanStreamDevice input(buffer);
+    // (without alpha channel the pixels take less than what was read)
+    SpanStreamDevice input(buffer.data(), len);
     image.SetDataRaw(input, info);
 
     png_destroy_read_struct(&png, &pnginfo, (png_infopp)NULL);
-- 
2.43.0


From 484401901a8899678b034fe07e3fbb4f03aa7e25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:27:04 +0000
Subject: [PATCH 086/128] fix: don't read beyond rows of image data that are
 too short

---
 src/pdfmm/base/PdfImage.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pdfmm/base/PdfImage.cpp b/src/pdfmm/base/PdfImage.cpp
index 9a69856..98ae155 100644
--- a/src/pdfmm/base/PdfImage.cpp
+++ b/src/pdfmm/base/PdfImage.cpp
@@ -307,6 +307,9 @@ void PdfImage::SetData(InputStream& stream, unsigned width, unsigned height, Pdf
             PDFMM_RAISE_ERROR(PdfErrorCode::InvalidEnumValue);
     }
 
+    if (rowSize >= 0 && (unsigned)rowSize < pdfRowSize)
+        PDFMM_RAISE_ERROR_INFO(PdfErrorCode::UnsupportedImageFormat, "The buffer stride is too small");
+
     auto output = GetObject().GetOrCreateStream().GetOutputStream();
     charbuff lineBuffer(rowSize < 0 ? defaultRowSize : (unsigned)rowSize);
     if (needFetch)
-- 
2.43.0


From 6e1e329e01054567e4557e5892fd0b194f38ab01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:27:04 +0000
Subject: [PATCH 087/128] fix: decode gray images row by row

---
 src/pdfmm/private/ImageUtils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pdfmm/private/ImageUtils.cpp b/src/pdfmm/private/ImageUtils.cpp
index b36ab2e..717bd3b 100644
--- a/src/pdfmm/private/ImageUtils.cpp
+++ b/src/pdfmm/private/ImageUtils.cpp
@@ -60,7 +60,7 @@ void utls::FetchImageRGB(OutputStream& stream, unsigned width, unsigned heigth,
 void utls::FetchImageGrayScale(OutputStream& stream, unsigned width, unsigned heigth, PdfPixelFormat format,
     const unsigned char* imageData, const charbuff& smaskData, charbuff& scanLine)
 {
-    unsigned srcRowSize = width * 3;
+    unsigned srcRowSize = width;
     if (smaskData.size() == 0)
     {
         for (unsigned i = 0; i < heigth; i++)
-- 
2.43.0


From 359d6673d1e39d45fcac351c1d1a46702e88809a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:27:04 +0000
Subject: [PATCH 088/128] fix: report errors when determining the size of a
 file

---
 src/pdfmm/private/PdfDeclarationsPrivate.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/pdfmm/private/PdfDeclarationsPrivate.cpp b/src/pdfmm/private/PdfDeclarationsPrivate.cpp
index f9f1823..6601041 100644
--- a/src/pdfmm/private/PdfDeclarationsPrivate.cpp
+++ b/src/pdfmm/private/PdfDeclarationsPrivate.cpp
@@ -730,6 +730,7 @@ bool utls::TryGetHexValue(char ch, unsigned char& value)
 size_t utls::FileSize(const string_view& filename)
 {
     streampos fbegin;
+    streampos fend;
 
     auto stream = utls::open_ifstream(filename, ios_base::in | ios_base::binary);
     if (stream.fail())
@@ -743,7 +744,11 @@ size_t utls::FileSize(const string_view& filename)
     if (stream.fail())
         goto Error;
 
-    return (size_t)(streamoff)(stream.tellg() - fbegin);
+    fend = stream.tellg();
+    if (fbegin == streampos(-1) || fend == streampos(-1))
+        goto Error;
+
+    return (size_t)(streamoff)(fend - fbegin);
 Error:
     PDFMM_RAISE_ERROR_INFO(PdfErrorCode::InvalidDeviceOperation, "Failed to read file size");
 }
-- 
2.43.0


From ebd9d07636664abcecc292f4239b7413c18ec3a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:32:26 +0000
Subject: [PATCH 089/128] fix: don't read beyond the data of images when
 decoding them

---
 src/pdfmm/base/PdfImage.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/pdfmm/base/PdfImage.cpp b/src/pdfmm/base/PdfImage.cpp
index 98ae155..d6e4173 100644
--- a/src/pdfmm/base/PdfImage.cpp
+++ b/src/pdfmm/base/PdfImage.cpp
@@ -73,9 +73,19 @@ void PdfImage::DecodeTo(OutputStream& stream, PdfPixelFormat format, int rowSize
     charbuff smaskData;
     charbuff scanLine = initScanLine(format, rowSize, smaskData);
 
+    if (smaskData.size() != 0 && smaskData.size() < (size_t)m_Width * m_Height)
+        PDFMM_RAISE_ERROR_INFO(PdfErrorCode::UnsupportedImageFormat, "Unsupported soft mask size or depth");
+
     if (mediaFilters.size() == 0)
     {
-        switch (GetColorSpace())
+        auto colorSpace = GetColorSpace();
+        size_t components = colorSpace == PdfColorSpace::DeviceRGB ? 3 : 1;
+        if (GetDictionary().FindKeyAs<int64_t>("BitsPerComponent", 8) != 8)
+            PDFMM_RAISE_ERROR_INFO(PdfErrorCode::UnsupportedImageFormat, "Unsupported bits per component");
+        if (imageData.size() < components * m_Width * m_Height)
+            PDFMM_RAISE_ERROR_INFO(PdfErrorCode::UnexpectedEOF, "The image data is too short");
+
+        switch (colorSpace)
         {
             case PdfColorSpace::DeviceRGB:
                 utls::FetchImageRGB(stream, m_Width, m_Height, format, (const unsigned char*)imageData.data(), smaskData, scanLine);
-- 
2.43.0


From d1c6b285a59d7901fd3eb38937ffb8be30e7caef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:32:26 +0000
Subject: [PATCH 090/128] fix: decode images to buffers with a given row size

---
 src/pdfmm/base/PdfImage.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/pdfmm/base/PdfImage.cpp b/src/pdfmm/base/PdfImage.cpp
index d6e4173..c5d84dc 100644
--- a/src/pdfmm/base/PdfImage.cpp
+++ b/src/pdfmm/base/PdfImage.cpp
@@ -50,7 +50,11 @@ PdfImage::PdfImage(PdfDocument& doc, const string_view& prefix)
 
 void PdfImage::DecodeTo(charbuff& buffer, PdfPixelFormat format, int rowSize) const
 {
-    buffer.resize(getBufferSize(format));
+    if (rowSize < 0)
+        buffer.resize(getBufferSize(format));
+    else
+        buffer.resize((size_t)rowSize * m_Height);
+
     SpanStreamDevice stream(buffer);
     DecodeTo(stream, format, rowSize);
 }
-- 
2.43.0


From aa2f39506c8b627fe53146d42ebef1549496ff25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:33:18 +0000
Subject: [PATCH 091/128] fix: report errors of the JPEG library without
 crashing

---
 src/pdfmm/private/JpegCommon.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pdfmm/private/JpegCommon.cpp b/src/pdfmm/private/JpegCommon.cpp
index e554c24..0cd8a24 100644
--- a/src/pdfmm/private/JpegCommon.cpp
+++ b/src/pdfmm/private/JpegCommon.cpp
@@ -25,7 +25,8 @@ extern "C"
     {
         std::string error;
         error.resize(JMSG_LENGTH_MAX);
-        (*ctx->err->format_message) ((jpeg_common_struct*)&ctx, error.data()); \
+        (*ctx->err->format_message) (ctx, error.data());
+        error.resize(std::char_traits<char>::length(error.data()));
         PDFMM_RAISE_ERROR_INFO(PdfErrorCode::InternalLogic, error);
     }
 #pragma warning(pop)
-- 
2.43.0


From 0a8e343ab92757118e45c50992abccc532724f4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:34:33 +0000
Subject: [PATCH 092/128] fix: don't replace the filter of streams set with
 encoded data when saving

---
 src/pdfmm/base/PdfObject.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pdfmm/base/PdfObject.cpp b/src/pdfmm/base/PdfObject.cpp
index 4953c3e..1378442 100644
--- a/src/pdfmm/base/PdfObject.cpp
+++ b/src/pdfmm/base/PdfObject.cpp
@@ -239,6 +239,7 @@ void PdfObject::Write(OutputStreamDevice& device, PdfWriteFlags writeMode,
         const PdfObject* metadataObj;
         if ((writeMode & PdfWriteFlags::NoFlateCompress) == PdfWriteFlags::None
             && m_Stream->GetFilters().size() == 0
+            && !m_Variant.GetDictionary().HasKey(PdfName::KeyFilter)
             && (m_Document == nullptr 
                 || (metadataObj = m_Document->GetCatalog().GetMetadataObject()) == nullptr
                 || m_IndirectReference != metadataObj->GetIndirectReference()))
-- 
2.43.0


From d7dc7df0423b96ce9302f9f402d9ae91834ab073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:34:33 +0000
Subject: [PATCH 093/128] fix: decode images set with encoded data with their
 filters

---
 src/pdfmm/base/PdfImage.cpp      | 5 ++++-
 src/pdfmm/base/PdfObjectStream.h | 1 +
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/pdfmm/base/PdfImage.cpp b/src/pdfmm/base/PdfImage.cpp
index c5d84dc..e00f3b6 100644
--- a/src/pdfmm/base/PdfImage.cpp
+++ b/src/pdfmm/base/PdfImage.cpp
@@ -379,7 +379,8 @@ void PdfImage::SetDataRaw(InputStream& stream, const PdfImageInfo& info)
     else
         dict.AddKey("ColorSpace", info.ColorSpaceArray);
 
-    GetObject().GetOrCreateStream().SetData(stream, true);
+    auto& objStream = GetObject().GetOrCreateStream();
+    objStream.SetData(stream, true);
 
     // If the filter list is supplied, set it now after stream writing
     if (info.Filters.size() == 1)
@@ -395,6 +396,8 @@ void PdfImage::SetDataRaw(InputStream& stream, const PdfImageInfo& info)
 
         dict.AddKey(PdfName::KeyFilter, arrFilters);
     }
+
+    objStream.m_Filters = info.Filters;
 }
 
 void PdfImage::LoadFromFile(const string_view& filepath)
diff --git a/src/pdfmm/base/PdfObjectStream.h b/src/pdfmm/base/PdfObjectStream.h
index 07f8c0e..76ca9a8 100644
--- a/src/pdfmm/base/PdfObjectStream.h
+++ b/src/pdfmm/base/PdfObjectStream.h
@@ -88,6 +88,7 @@ class PDFMM_API PdfObjectStream final
     friend class PdfObjectInputStream;
     friend class PdfObjectOutputStream;
     friend class PdfImmediateWriter;
+    friend class PdfImage;
 
 private:
     /** Create a new PdfObjectStream object which has a parent PdfObject.
-- 
2.43.0


From 773ed61c497a331b4a4b1c95a650f31d4eed576a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:39:42 +0000
Subject: [PATCH 094/128] fix: report image buffers that are too small

---
 src/pdfmm/base/PdfImage.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pdfmm/base/PdfImage.cpp b/src/pdfmm/base/PdfImage.cpp
index e00f3b6..e39f3f1 100644
--- a/src/pdfmm/base/PdfImage.cpp
+++ b/src/pdfmm/base/PdfImage.cpp
@@ -438,7 +438,7 @@ void PdfImage::LoadFromFile(const string_view& filepath)
 void PdfImage::LoadFromBuffer(const bufferview& buffer)
 {
     if (buffer.size() <= 4)
-        return;
+        PDFMM_RAISE_ERROR_INFO(PdfErrorCode::UnsupportedImageFormat, "The buffer is too small");
 
     unsigned char magic[4];
     memcpy(magic, buffer.data(), 4);
-- 
2.43.0


From 4ba9fffeeac8ae6db6d0b8be1fee31b77574153e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:06:50 +0000
Subject: [PATCH 095/128] fix: don't change a contents array that other pages
 may share

---
 src/pdfmm/base/PdfContents.cpp | 17 +++++++++++++++--
 src/pdfmm/base/PdfContents.h   |  1 +
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/pdfmm/base/PdfContents.cpp b/src/pdfmm/base/PdfContents.cpp
index e89cb7a..d258ab1 100644
--- a/src/pdfmm/base/PdfContents.cpp
+++ b/src/pdfmm/base/PdfContents.cpp
@@ -18,12 +18,12 @@
 using namespace mm;
 
 PdfContents::PdfContents(PdfPage &parent, PdfObject &obj)
-    : m_parent(&parent), m_object(&obj)
+    : m_parent(&parent), m_object(&obj), m_shareable(true)
 {
 }
 
 PdfContents::PdfContents(PdfPage &parent) 
-    : m_parent(&parent), m_object(&parent.GetDocument().GetObjects().CreateArrayObject())
+    : m_parent(&parent), m_object(&parent.GetDocument().GetObjects().CreateArrayObject()), m_shareable(false)
 {
     reset();
 }
@@ -33,6 +33,7 @@ void PdfContents::Reset(PdfObject* obj)
     if (obj == nullptr)
     {
         m_object = &m_parent->GetDocument().GetObjects().CreateArrayObject();
+        m_shareable = false;
     }
     else
     {
@@ -41,6 +42,7 @@ void PdfContents::Reset(PdfObject* obj)
             PDFMM_RAISE_ERROR_INFO(PdfErrorCode::InvalidHandle, "The object is neither a Dictionary or an Array");
 
         m_object = obj;
+        m_shareable = true;
     }
 
     reset();
@@ -83,6 +85,16 @@ PdfObjectStream & PdfContents::GetStreamForAppending(PdfStreamAppendFlags flags)
     PdfArray *arr;
     if (m_object->IsArray())
     {
+        if (m_shareable && m_object->IsIndirect())
+        {
+            // Other pages may have the same /Contents array: don't change it
+            auto& newObjArray = m_parent->GetDocument().GetObjects().CreateArrayObject();
+            newObjArray.GetArray() = m_object->GetArray();
+            m_parent->GetObject().GetDictionary().AddKeyIndirect("Contents", newObjArray);
+            m_object = &newObjArray;
+            m_shareable = false;
+        }
+
         arr = &m_object->GetArray();
     }
     else if (m_object->IsDictionary())
@@ -93,6 +105,7 @@ PdfObjectStream & PdfContents::GetStreamForAppending(PdfStreamAppendFlags flags)
         arr = &newObjArray.GetArray();
         arr->AddIndirect(*m_object);
         m_object = &newObjArray;
+        m_shareable = false;
     }
     else
     {
diff --git a/src/pdfmm/base/PdfContents.h b/src/pdfmm/base/PdfContents.h
index edff194..7624d2a 100644
--- a/src/pdfmm/base/PdfContents.h
+++ b/src/pdfmm/base/PdfContents.h
@@ -54,6 +54,7 @@ private:
 private:
     PdfPage *m_parent;
     PdfObject *m_object;
+    bool m_shareable; // The array may be used also by other pages
 };
 
 };
-- 
2.43.0


From cbcf4f3238b9c02565180309798b159ff42ad8e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:29:54 +0000
Subject: [PATCH 096/128] fix: don't copy streams endlessly that are their own
 filter parameters

---
 src/pdfmm/base/PdfObjectStream.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/pdfmm/base/PdfObjectStream.cpp b/src/pdfmm/base/PdfObjectStream.cpp
index 608943d..217e8dd 100644
--- a/src/pdfmm/base/PdfObjectStream.cpp
+++ b/src/pdfmm/base/PdfObjectStream.cpp
@@ -213,6 +213,8 @@ void PdfObjectStream::MoveFrom(PdfObjectStream& rhs)
 
     // Fix the /Filter and /DecodeParms keys for
     // both objects after the stream has been moved
+    // NOTE: Take the values only. In a damaged document
+    // they may refer to the object of the stream itself
     auto& lhsDict = m_Parent->GetDictionary();
     auto& rhsDict = rhs.m_Parent->GetDictionary();
     auto filter = rhsDict.FindKey(PdfName::KeyFilter);
@@ -222,7 +224,7 @@ void PdfObjectStream::MoveFrom(PdfObjectStream& rhs)
     }
     else
     {
-        lhsDict.AddKey(PdfName::KeyFilter, *filter);
+        lhsDict.AddKey(PdfName::KeyFilter, PdfObject(filter->GetVariant()));
         rhsDict.RemoveKey(PdfName::KeyFilter);
     }
 
@@ -233,7 +235,7 @@ void PdfObjectStream::MoveFrom(PdfObjectStream& rhs)
     }
     else
     {
-        lhsDict.AddKey(DecodeParmsKey, *decodeParms);
+        lhsDict.AddKey(DecodeParmsKey, PdfObject(decodeParms->GetVariant()));
         rhsDict.RemoveKey(DecodeParmsKey);
     }
 
@@ -250,19 +252,21 @@ void PdfObjectStream::CopyFrom(const PdfObjectStream& rhs)
     }
 
     // Copy the /Filter and /DecodeParms keys
+    // NOTE: Copy the values only. In a damaged document
+    // they may refer to the object of the stream itself
     auto& lhsDict = m_Parent->GetDictionary();
     auto& rhsDict = rhs.m_Parent->GetDictionary();
     auto filter = rhsDict.FindKey(PdfName::KeyFilter);
     if (filter == nullptr)
         lhsDict.RemoveKey(PdfName::KeyFilter);
     else
-        lhsDict.AddKey(PdfName::KeyFilter, *filter);
+        lhsDict.AddKey(PdfName::KeyFilter, PdfObject(filter->GetVariant()));
 
     auto decodeParms = rhsDict.FindKey(DecodeParmsKey);
     if (decodeParms == nullptr)
         lhsDict.RemoveKey(DecodeParmsKey);
     else
-        lhsDict.AddKey(DecodeParmsKey, *decodeParms);
+        lhsDict.AddKey(DecodeParmsKey, PdfObject(decodeParms->GetVariant()));
 
     m_Filters = rhs.m_Filters;
 }
-- 
2.43.0


From 281ec0297bd256cd8c66d65645e754191ea320c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:47:09 +0000
Subject: [PATCH 097/128] fix: Removing an entry of a collection by index
 corrupted its reference map when entries are invalid or share a reference

---
 src/pdfmm/base/PdfAcroForm.cpp                | 11 ++++++++---
 src/pdfmm/base/PdfAnnotationCollection.cpp    | 11 ++++++++---
 src/pdfmm/base/PdfFieldChildrenCollection.cpp | 11 ++++++++---
 3 files changed, 24 insertions(+), 9 deletions(-)

diff --git a/src/pdfmm/base/PdfAcroForm.cpp b/src/pdfmm/base/PdfAcroForm.cpp
index ddf5fd1..3230fd5 100644
--- a/src/pdfmm/base/PdfAcroForm.cpp
+++ b/src/pdfmm/base/PdfAcroForm.cpp
@@ -111,10 +111,15 @@ void PdfAcroForm::RemoveFieldAt(unsigned index)
     if (index >= m_Fields.size())
         PDFMM_RAISE_ERROR(PdfErrorCode::ValueOutOfRange);
 
-    if (m_Fields[index] != nullptr)
+    // NOTE: Search by index since the entry may be invalid, or
+    // other entries can have the same reference
+    for (auto it = m_fieldMap->begin(); it != m_fieldMap->end(); it++)
     {
-        // It may be null if the field is invalid
-        m_fieldMap->erase(m_fieldMap->find(m_Fields[index]->GetObject().GetIndirectReference()));
+        if (it->second == index)
+        {
+            m_fieldMap->erase(it);
+            break;
+        }
     }
 
     m_fieldArray->RemoveAt(index);
diff --git a/src/pdfmm/base/PdfAnnotationCollection.cpp b/src/pdfmm/base/PdfAnnotationCollection.cpp
index af15e10..1c97333 100644
--- a/src/pdfmm/base/PdfAnnotationCollection.cpp
+++ b/src/pdfmm/base/PdfAnnotationCollection.cpp
@@ -47,10 +47,15 @@ void PdfAnnotationCollection::RemoveAnnotAt(unsigned index)
     if (index >= m_Annots.size())
         PDFMM_RAISE_ERROR(PdfErrorCode::ValueOutOfRange);
 
-    if (m_Annots[index] != nullptr)
+    // NOTE: Search by index since the entry may be invalid, or
+    // other entries can have the same reference
+    for (auto it = m_annotMap->begin(); it != m_annotMap->end(); it++)
     {
-        // It may be null if the annotation is invalid
-        m_annotMap->erase(m_annotMap->find(m_Annots[index]->GetObject().GetIndirectReference()));
+        if (it->second == index)
+        {
+            m_annotMap->erase(it);
+            break;
+        }
     }
 
     m_annotArray->RemoveAt(index);
diff --git a/src/pdfmm/base/PdfFieldChildrenCollection.cpp b/src/pdfmm/base/PdfFieldChildrenCollection.cpp
index 76e05e8..0e09749 100644
--- a/src/pdfmm/base/PdfFieldChildrenCollection.cpp
+++ b/src/pdfmm/base/PdfFieldChildrenCollection.cpp
@@ -54,10 +54,15 @@ void PdfFieldChildrenCollectionBase::RemoveFieldAt(unsigned index)
     if (index >= m_Fields.size())
         PDFMM_RAISE_ERROR(PdfErrorCode::ValueOutOfRange);
 
-    if (m_Fields[index] != nullptr)
+    // NOTE: Search by index since the entry may be invalid, or
+    // other entries can have the same reference
+    for (auto it = m_fieldMap->begin(); it != m_fieldMap->end(); it++)
     {
-        // It may be null if the annotation is invalid
-        m_fieldMap->erase(m_fieldMap->find(m_Fields[index]->GetObject().GetIndirectReference()));
+        if (it->second == index)
+        {
+            m_fieldMap->erase(it);
+            break;
+        }
     }
 
     m_kidsArray->RemoveAt(index);
-- 
2.43.0


From ccc92af0c663b3da02959d3f1beff55a7b633912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:47:09 +0000
Subject: [PATCH 098/128] fix: Accessing an invalid entry of a collection
 dereferenced a null pointer

---
 src/pdfmm/base/PdfAcroForm.cpp                | 8 ++++++--
 src/pdfmm/base/PdfAnnotationCollection.cpp    | 8 ++++++--
 src/pdfmm/base/PdfFieldChildrenCollection.cpp | 8 ++++++--
 3 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/src/pdfmm/base/PdfAcroForm.cpp b/src/pdfmm/base/PdfAcroForm.cpp
index 3230fd5..226b8a1 100644
--- a/src/pdfmm/base/PdfAcroForm.cpp
+++ b/src/pdfmm/base/PdfAcroForm.cpp
@@ -96,13 +96,17 @@ PdfField& PdfAcroForm::getField(unsigned index) const
     if (index >= m_Fields.size())
         PDFMM_RAISE_ERROR(PdfErrorCode::ValueOutOfRange);
 
-    return *m_Fields[index];
+    auto& field = m_Fields[index];
+    if (field == nullptr)
+        PDFMM_RAISE_ERROR_INFO(PdfErrorCode::InvalidHandle, "Invalid field");
+
+    return *field;
 }
 
 PdfField& PdfAcroForm::getField(const PdfReference& ref) const
 {
     const_cast<PdfAcroForm&>(*this).initFields();
-    return *m_Fields[(*m_fieldMap).at(ref)];
+    return getField((*m_fieldMap).at(ref));
 }
 
 void PdfAcroForm::RemoveFieldAt(unsigned index)
diff --git a/src/pdfmm/base/PdfAnnotationCollection.cpp b/src/pdfmm/base/PdfAnnotationCollection.cpp
index 1c97333..b5482ee 100644
--- a/src/pdfmm/base/PdfAnnotationCollection.cpp
+++ b/src/pdfmm/base/PdfAnnotationCollection.cpp
@@ -142,13 +142,17 @@ PdfAnnotation& PdfAnnotationCollection::getAnnotAt(unsigned index) const
     if (index >= m_Annots.size())
         PDFMM_RAISE_ERROR(PdfErrorCode::ValueOutOfRange);
 
-    return *m_Annots[index];
+    auto& annot = m_Annots[index];
+    if (annot == nullptr)
+        PDFMM_RAISE_ERROR_INFO(PdfErrorCode::InvalidHandle, "Invalid annotation");
+
+    return *annot;
 }
 
 PdfAnnotation& PdfAnnotationCollection::getAnnot(const PdfReference& ref) const
 {
     const_cast<PdfAnnotationCollection&>(*this).initAnnotations();
-    return *m_Annots[(*m_annotMap).at(ref)];
+    return getAnnotAt((*m_annotMap).at(ref));
 }
 
 void PdfAnnotationCollection::initAnnotations()
diff --git a/src/pdfmm/base/PdfFieldChildrenCollection.cpp b/src/pdfmm/base/PdfFieldChildrenCollection.cpp
index 0e09749..7741b77 100644
--- a/src/pdfmm/base/PdfFieldChildrenCollection.cpp
+++ b/src/pdfmm/base/PdfFieldChildrenCollection.cpp
@@ -151,13 +151,17 @@ PdfField& PdfFieldChildrenCollectionBase::getFieldAt(unsigned index) const
     if (index >= m_Fields.size())
         PDFMM_RAISE_ERROR(PdfErrorCode::ValueOutOfRange);
 
-    return *m_Fields[index];
+    auto& field = m_Fields[index];
+    if (field == nullptr)
+        PDFMM_RAISE_ERROR_INFO(PdfErrorCode::InvalidHandle, "Invalid field");
+
+    return *field;
 }
 
 PdfField& PdfFieldChildrenCollectionBase::getField(const PdfReference& ref) const
 {
     const_cast<PdfFieldChildrenCollectionBase&>(*this).initFields();
-    return *m_Fields[(*m_fieldMap).at(ref)];
+    return getFieldAt((*m_fieldMap).at(ref));
 }
 
 void PdfFieldChildrenCollectionBase::initFields()
-- 
2.43.0


From ffe04b74c166ad46ae283221b071f17d011821a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:47:09 +0000
Subject: [PATCH 099/128] fix: Iterating annotations or fields of a loaded
 document found none, and fields not directly in the AcroForm got a wrong
 parent

---
 src/pdfmm/base/PdfAcroForm.cpp                |  4 ++++
 src/pdfmm/base/PdfAnnotationCollection.cpp    |  4 ++++
 src/pdfmm/base/PdfField.cpp                   | 11 +++++------
 src/pdfmm/base/PdfField.h                     |  2 +-
 src/pdfmm/base/PdfFieldChildrenCollection.cpp |  8 +++++++-
 5 files changed, 21 insertions(+), 8 deletions(-)

diff --git a/src/pdfmm/base/PdfAcroForm.cpp b/src/pdfmm/base/PdfAcroForm.cpp
index 226b8a1..0ae08da 100644
--- a/src/pdfmm/base/PdfAcroForm.cpp
+++ b/src/pdfmm/base/PdfAcroForm.cpp
@@ -159,21 +159,25 @@ unsigned PdfAcroForm::GetFieldCount() const
 
 PdfAcroForm::iterator PdfAcroForm::begin()
 {
+    initFields();
     return iterator(m_Fields.begin());
 }
 
 PdfAcroForm::iterator PdfAcroForm::end()
 {
+    initFields();
     return iterator(m_Fields.end());
 }
 
 PdfAcroForm::const_iterator PdfAcroForm::begin() const
 {
+    const_cast<PdfAcroForm&>(*this).initFields();
     return const_iterator(m_Fields.begin());
 }
 
 PdfAcroForm::const_iterator PdfAcroForm::end() const
 {
+    const_cast<PdfAcroForm&>(*this).initFields();
     return const_iterator(m_Fields.end());
 }
 
diff --git a/src/pdfmm/base/PdfAnnotationCollection.cpp b/src/pdfmm/base/PdfAnnotationCollection.cpp
index b5482ee..e245601 100644
--- a/src/pdfmm/base/PdfAnnotationCollection.cpp
+++ b/src/pdfmm/base/PdfAnnotationCollection.cpp
@@ -91,21 +91,25 @@ unsigned PdfAnnotationCollection::GetCount() const
 
 PdfAnnotationCollection::iterator PdfAnnotationCollection::begin()
 {
+    initAnnotations();
     return m_Annots.begin();
 }
 
 PdfAnnotationCollection::iterator PdfAnnotationCollection::end()
 {
+    initAnnotations();
     return m_Annots.end();
 }
 
 PdfAnnotationCollection::const_iterator PdfAnnotationCollection::begin() const
 {
+    const_cast<PdfAnnotationCollection&>(*this).initAnnotations();
     return m_Annots.begin();
 }
 
 PdfAnnotationCollection::const_iterator PdfAnnotationCollection::end() const
 {
+    const_cast<PdfAnnotationCollection&>(*this).initAnnotations();
     return m_Annots.end();
 }
 
diff --git a/src/pdfmm/base/PdfField.cpp b/src/pdfmm/base/PdfField.cpp
index 428a2d1..62f9b25 100644
--- a/src/pdfmm/base/PdfField.cpp
+++ b/src/pdfmm/base/PdfField.cpp
@@ -169,6 +169,10 @@ PdfField& PdfField::Create(const string_view& name,
     {
         for (auto field : *acroForm)
         {
+            // It may be null if the field is invalid
+            if (field == nullptr)
+                continue;
+
             // Find a candidate parent with same name and type
             auto fieldName = field->GetNameRaw();
             if (fieldName.has_value() && *fieldName == name)
@@ -349,12 +353,7 @@ PdfFieldType PdfField::getFieldType(const type_info& typeInfo)
 
 shared_ptr<PdfField> PdfField::GetPtr()
 {
-    if (m_AcroForm != nullptr)
-        return m_AcroForm->GetFieldPtr(GetObject().GetIndirectReference());
-    else if (m_Widget != nullptr)
-        return m_Widget->GetFieldPtr();
-    else
-        return nullptr;
+    return weak_from_this().lock();
 }
 
 PdfField* PdfField::getParentTyped(PdfFieldType type) const
diff --git a/src/pdfmm/base/PdfField.h b/src/pdfmm/base/PdfField.h
index 8ef8781..a0d96f1 100644
--- a/src/pdfmm/base/PdfField.h
+++ b/src/pdfmm/base/PdfField.h
@@ -22,7 +22,7 @@ class PdfPage;
 class PdfAcroForm;
 class PdfAnnotationWidget;
 
-class PDFMM_API PdfField : public PdfDictionaryElement
+class PDFMM_API PdfField : public PdfDictionaryElement, public std::enable_shared_from_this<PdfField>
 {
     friend class PdfSignature;
     friend class PdfButton;
diff --git a/src/pdfmm/base/PdfFieldChildrenCollection.cpp b/src/pdfmm/base/PdfFieldChildrenCollection.cpp
index 7741b77..902b1c9 100644
--- a/src/pdfmm/base/PdfFieldChildrenCollection.cpp
+++ b/src/pdfmm/base/PdfFieldChildrenCollection.cpp
@@ -104,21 +104,25 @@ bool PdfFieldChildrenCollectionBase::HasKidsArray() const
 
 PdfFieldChildrenCollectionBase::iterator PdfFieldChildrenCollectionBase::begin()
 {
+    initFields();
     return m_Fields.begin();
 }
 
 PdfFieldChildrenCollectionBase::iterator PdfFieldChildrenCollectionBase::end()
 {
+    initFields();
     return m_Fields.end();
 }
 
 PdfFieldChildrenCollectionBase::const_iterator PdfFieldChildrenCollectionBase::begin() const
 {
+    const_cast<PdfFieldChildrenCollectionBase&>(*this).initFields();
     return m_Fields.begin();
 }
 
 PdfFieldChildrenCollectionBase::const_iterator PdfFieldChildrenCollectionBase::end() const
 {
+    const_cast<PdfFieldChildrenCollectionBase&>(*this).initFields();
     return m_Fields.end();
 }
 
@@ -183,7 +187,9 @@ void PdfFieldChildrenCollectionBase::initFields()
         // The annotation may be invalid. In that case we push a placeholder
         if (PdfField::TryCreateFromObject(*obj, field))
         {
-            field->SetParent(m_field->GetPtr());
+            auto parent = m_field->GetPtr();
+            if (parent != nullptr)
+                field->SetParent(parent);
             m_Fields.push_back(std::move(field));
         }
         else
-- 
2.43.0


From d8a4ec2def978d64b6b9eb2c374374a8296b5913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:47:36 +0000
Subject: [PATCH 100/128] fix: A non-dictionary entry left an annotation or
 field collection half initialized

---
 src/pdfmm/base/PdfAcroForm.cpp                | 2 +-
 src/pdfmm/base/PdfAnnotationCollection.cpp    | 2 +-
 src/pdfmm/base/PdfFieldChildrenCollection.cpp | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pdfmm/base/PdfAcroForm.cpp b/src/pdfmm/base/PdfAcroForm.cpp
index 0ae08da..fee7986 100644
--- a/src/pdfmm/base/PdfAcroForm.cpp
+++ b/src/pdfmm/base/PdfAcroForm.cpp
@@ -240,7 +240,7 @@ void PdfAcroForm::initFields()
     {
         (*m_fieldMap)[obj->GetIndirectReference()] = i;
         // The field may be invalid. In that case we push a placeholder
-        if (PdfField::TryCreateFromObject(*obj, field))
+        if (obj->IsDictionary() && PdfField::TryCreateFromObject(*obj, field))
             m_Fields.push_back(std::move(field));
         else
             m_Fields.push_back(nullptr);
diff --git a/src/pdfmm/base/PdfAnnotationCollection.cpp b/src/pdfmm/base/PdfAnnotationCollection.cpp
index e245601..fe3d5be 100644
--- a/src/pdfmm/base/PdfAnnotationCollection.cpp
+++ b/src/pdfmm/base/PdfAnnotationCollection.cpp
@@ -176,7 +176,7 @@ void PdfAnnotationCollection::initAnnotations()
     {
         (*m_annotMap)[obj->GetIndirectReference()] = i;
         // The annotation may be invalid. In that case we push a placeholder
-        if (PdfAnnotation::TryCreateFromObject(*obj, annot))
+        if (obj->IsDictionary() && PdfAnnotation::TryCreateFromObject(*obj, annot))
         {
             annot->SetPage(*m_Page);
             m_Annots.push_back(std::move(annot));
diff --git a/src/pdfmm/base/PdfFieldChildrenCollection.cpp b/src/pdfmm/base/PdfFieldChildrenCollection.cpp
index 902b1c9..a14c4e0 100644
--- a/src/pdfmm/base/PdfFieldChildrenCollection.cpp
+++ b/src/pdfmm/base/PdfFieldChildrenCollection.cpp
@@ -185,7 +185,7 @@ void PdfFieldChildrenCollectionBase::initFields()
     {
         (*m_fieldMap)[obj->GetIndirectReference()] = i;
         // The annotation may be invalid. In that case we push a placeholder
-        if (PdfField::TryCreateFromObject(*obj, field))
+        if (obj->IsDictionary() && PdfField::TryCreateFromObject(*obj, field))
         {
             auto parent = m_field->GetPtr();
             if (parent != nullptr)
-- 
2.43.0


From f015bd7e228ca226276175f7b0960003028634df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:47:52 +0000
Subject: [PATCH 101/128] fix: Names with non-ASCII characters were not found,
 sorted wrongly or duplicated in name trees of loaded documents; malformed
 /Names and /Kids arrays were read out of bounds

---
 src/pdfmm/base/PdfNameTree.cpp | 60 ++++++++++++++++++++++++++++++----
 1 file changed, 54 insertions(+), 6 deletions(-)

diff --git a/src/pdfmm/base/PdfNameTree.cpp b/src/pdfmm/base/PdfNameTree.cpp
index e52427c..21cbaa0 100644
--- a/src/pdfmm/base/PdfNameTree.cpp
+++ b/src/pdfmm/base/PdfNameTree.cpp
@@ -6,13 +6,19 @@
 #include <pdfmm/private/PdfDeclarationsPrivate.h>
 #include "PdfNameTree.h"
 
+#include <utfcpp/utf8.h>
+#include <pdfmm/private/PdfEncodingPrivate.h>
+
 #include "PdfDocument.h"
 #include "PdfArray.h"
 #include "PdfDictionary.h"
 #include "PdfOutputDevice.h"
 
+using namespace std;
 using namespace mm;
 
+static string getEncodedKey(const PdfString& str);
+
 #define BALANCE_TREE_MAX 65
 
 /*
@@ -25,7 +31,8 @@ public:
     PdfNameTreeNode(PdfNameTreeNode* parent, PdfObject* obj)
         : m_Parent(parent), m_Object(obj)
     {
-        m_HasKids = m_Object->GetDictionary().HasKey("Kids");
+        auto kidsObj = m_Object->GetDictionary().FindKey("Kids");
+        m_HasKids = kidsObj != nullptr && (!kidsObj->IsArray() || kidsObj->GetArray().size() != 0);
     }
 
     bool AddValue(const PdfString& key, const PdfObject& value);
@@ -46,6 +53,7 @@ private:
 
 bool PdfNameTreeNode::AddValue(const PdfString& key, const PdfObject& value)
 {
+    utls::RecursionGuard guard;
     if (m_HasKids)
     {
         const PdfArray& kids = this->GetObject()->GetDictionary().MustFindKey("Kids").GetArray();
@@ -102,10 +110,16 @@ bool PdfNameTreeNode::AddValue(const PdfString& key, const PdfObject& value)
         if (this->GetObject()->GetDictionary().HasKey("Names"))
         {
             auto& array = this->GetObject()->GetDictionary().MustFindKey("Names").GetArray();
+            // Drop a possible trailing key without value
+            if (array.size() % 2 != 0)
+                array.RemoveAt(array.size() - 1);
+
+            auto encodedKey = getEncodedKey(key);
             PdfArray::iterator it = array.begin();
             while (it != array.end())
             {
-                if (it->GetString() == key)
+                auto currEncodedKey = getEncodedKey(it->GetString());
+                if (currEncodedKey == encodedKey)
                 {
                     // no need to write the key as it is anyways the same
                     it++;
@@ -113,7 +127,7 @@ bool PdfNameTreeNode::AddValue(const PdfString& key, const PdfObject& value)
                     *it = value;
                     break;
                 }
-                else if (it->GetString().GetString() > key.GetString())
+                else if (currEncodedKey > encodedKey)
                 {
                     it = array.insert(it, value); // array.insert invalidates the iterator
                     it = array.insert(it, key);
@@ -373,12 +387,13 @@ PdfObject* PdfNameTree::GetKeyValue(PdfObject& obj, const PdfString& key) const
     {
         auto& names = obj.GetDictionary().MustFindKey("Names").GetArray();
         PdfArray::iterator it = names.begin();
+        auto encodedKey = getEncodedKey(key);
 
         // a names array is a set of PdfString/PdfObject pairs
         // so we loop in sets of two - getting each pair
         while (names.end() - it >= 2)
         {
-            if (it->GetString() == key)
+            if (getEncodedKey(it->GetString()) == encodedKey)
             {
                 it++;
                 if (it->IsReference())
@@ -422,10 +437,11 @@ PdfNameLimits PdfNameTree::CheckLimits(const PdfObject& obj, const PdfString& ke
         if (limits.GetSize() < 2)
             PDFMM_RAISE_ERROR_INFO(PdfErrorCode::InvalidDataType, "Invalid /Limits");
 
-        if (limits[0].GetString().GetString() > key.GetString())
+        auto encodedKey = getEncodedKey(key);
+        if (getEncodedKey(limits[0].GetString()) > encodedKey)
             return PdfNameLimits::Before;
 
-        if (limits[1].GetString().GetString() < key.GetString())
+        if (getEncodedKey(limits[1].GetString()) < encodedKey)
             return PdfNameLimits::After;
     }
     else
@@ -503,3 +519,35 @@ PdfObject* PdfNameTree::GetDestsNode(bool create) const
 {
     return this->GetRootNode("Dests", create);
 }
+
+// Get the bytes of the key as written in the document: name
+// trees are sorted by them
+string getEncodedKey(const PdfString& str)
+{
+    switch (str.GetState())
+    {
+        case PdfStringState::PdfDocEncoding:
+        {
+            string ret;
+            (void)mm::TryConvertUTF8ToPdfDocEncoding(str.GetString(), ret);
+            return ret;
+        }
+        case PdfStringState::Unicode:
+        {
+            u16string utf16;
+            auto& utf8 = str.GetString();
+            utf8::utf8to16(utf8.begin(), utf8.end(), std::back_inserter(utf16));
+            string ret = "\xFE\xFF";
+            for (auto ch : utf16)
+            {
+                ret.push_back((char)((ch >> 8) & 0xFF));
+                ret.push_back((char)(ch & 0xFF));
+            }
+            return ret;
+        }
+        case PdfStringState::RawBuffer:
+            return str.GetRawData();
+        default:
+            return str.GetString();
+    }
+}
-- 
2.43.0


From 8dd113db0db6254bc160f4b88f98bd1ea13e084b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:49:15 +0000
Subject: [PATCH 102/128] fix: The maximum length of a text field was never
 read

---
 src/pdfmm/base/PdfTextBox.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pdfmm/base/PdfTextBox.cpp b/src/pdfmm/base/PdfTextBox.cpp
index 6f3ceb2..7ffa038 100644
--- a/src/pdfmm/base/PdfTextBox.cpp
+++ b/src/pdfmm/base/PdfTextBox.cpp
@@ -76,7 +76,7 @@ int64_t PdfTextBox::GetMaxLen() const
 {
     int64_t ret;
     auto found = GetDictionary().FindKeyParent("MaxLen");
-    if (found == nullptr || found->TryGetNumber(ret))
+    if (found == nullptr || !found->TryGetNumber(ret))
         return -1;
 
     return ret;
-- 
2.43.0


From 87b633915e82fdd5d5eb4c73dbfd0c804b3781f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:49:15 +0000
Subject: [PATCH 103/128] fix: Fields with the same name of a loaded one were
 not grouped, and a refused field left its widget in the page

---
 src/pdfmm/base/PdfField.cpp |  2 +-
 src/pdfmm/base/PdfPage.cpp  | 22 ++++++++++++++++++++--
 2 files changed, 21 insertions(+), 3 deletions(-)

diff --git a/src/pdfmm/base/PdfField.cpp b/src/pdfmm/base/PdfField.cpp
index 62f9b25..008a803 100644
--- a/src/pdfmm/base/PdfField.cpp
+++ b/src/pdfmm/base/PdfField.cpp
@@ -175,7 +175,7 @@ PdfField& PdfField::Create(const string_view& name,
 
             // Find a candidate parent with same name and type
             auto fieldName = field->GetNameRaw();
-            if (fieldName.has_value() && *fieldName == name)
+            if (fieldName.has_value() && fieldName->GetString() == name)
             {
                 if (field->GetType() != type)
                     throw runtime_error("Found field with same name and different type");
diff --git a/src/pdfmm/base/PdfPage.cpp b/src/pdfmm/base/PdfPage.cpp
index 9891bb9..ab39ea9 100644
--- a/src/pdfmm/base/PdfPage.cpp
+++ b/src/pdfmm/base/PdfPage.cpp
@@ -218,13 +218,31 @@ void PdfPage::MoveAt(unsigned index)
 PdfField& PdfPage::CreateField(const string_view& name, PdfFieldType fieldType, const PdfRect& rect)
 {
     auto& annotation = static_cast<PdfAnnotationWidget&>(GetAnnotations().CreateAnnot(PdfAnnotationType::Widget, rect));
-    return PdfField::Create(name, annotation, fieldType);
+    try
+    {
+        return PdfField::Create(name, annotation, fieldType);
+    }
+    catch (...)
+    {
+        // Don't leave in the page a widget without field
+        GetAnnotations().RemoveAnnot(annotation.GetObject().GetIndirectReference());
+        throw;
+    }
 }
 
 PdfField& PdfPage::createField(const string_view& name, const type_info& typeInfo, const PdfRect& rect)
 {
     auto& annotation = static_cast<PdfAnnotationWidget&>(GetAnnotations().CreateAnnot(PdfAnnotationType::Widget, rect));
-    return PdfField::Create(name, annotation, typeInfo);
+    try
+    {
+        return PdfField::Create(name, annotation, typeInfo);
+    }
+    catch (...)
+    {
+        // Don't leave in the page a widget without field
+        GetAnnotations().RemoveAnnot(annotation.GetObject().GetIndirectReference());
+        throw;
+    }
 }
 
 bool PdfPage::SetPageWidth(int newWidth)
-- 
2.43.0


From 046d403d411c54f7abb9ecd80b57287c0a47ecd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:50:41 +0000
Subject: [PATCH 104/128] fix: Annotations and fields stored directly in their
 array were used after being freed when the array was modified

---
 src/pdfmm/base/PdfAcroForm.cpp                |  9 +++++++++
 src/pdfmm/base/PdfAnnotationCollection.cpp    | 10 ++++++++++
 src/pdfmm/base/PdfFieldChildrenCollection.cpp | 10 ++++++++++
 3 files changed, 29 insertions(+)

diff --git a/src/pdfmm/base/PdfAcroForm.cpp b/src/pdfmm/base/PdfAcroForm.cpp
index fee7986..72d93bf 100644
--- a/src/pdfmm/base/PdfAcroForm.cpp
+++ b/src/pdfmm/base/PdfAcroForm.cpp
@@ -238,6 +238,15 @@ void PdfAcroForm::initFields()
     unsigned i = 0;
     for (auto obj : m_fieldArray->GetIndirectIterator())
     {
+        if (!obj->IsIndirect() && obj->IsDictionary())
+        {
+            // Elements refer their object, which has to stay
+            // valid when the array is modified
+            auto& indirectObj = GetDocument().GetObjects().CreateObject(*obj);
+            (*m_fieldArray)[i] = PdfObject(indirectObj.GetIndirectReference());
+            obj = &indirectObj;
+        }
+
         (*m_fieldMap)[obj->GetIndirectReference()] = i;
         // The field may be invalid. In that case we push a placeholder
         if (obj->IsDictionary() && PdfField::TryCreateFromObject(*obj, field))
diff --git a/src/pdfmm/base/PdfAnnotationCollection.cpp b/src/pdfmm/base/PdfAnnotationCollection.cpp
index fe3d5be..3acb10f 100644
--- a/src/pdfmm/base/PdfAnnotationCollection.cpp
+++ b/src/pdfmm/base/PdfAnnotationCollection.cpp
@@ -6,6 +6,7 @@
 
 #include <pdfmm/private/PdfDeclarationsPrivate.h>
 #include "PdfAnnotationCollection.h"
+#include "PdfDocument.h"
 #include "PdfPage.h"
 
 using namespace std;
@@ -174,6 +175,15 @@ void PdfAnnotationCollection::initAnnotations()
     unsigned i = 0;
     for (auto obj : m_annotArray->GetIndirectIterator())
     {
+        if (!obj->IsIndirect() && obj->IsDictionary())
+        {
+            // Elements refer their object, which has to stay
+            // valid when the array is modified
+            auto& indirectObj = m_Page->GetDocument().GetObjects().CreateObject(*obj);
+            (*m_annotArray)[i] = PdfObject(indirectObj.GetIndirectReference());
+            obj = &indirectObj;
+        }
+
         (*m_annotMap)[obj->GetIndirectReference()] = i;
         // The annotation may be invalid. In that case we push a placeholder
         if (obj->IsDictionary() && PdfAnnotation::TryCreateFromObject(*obj, annot))
diff --git a/src/pdfmm/base/PdfFieldChildrenCollection.cpp b/src/pdfmm/base/PdfFieldChildrenCollection.cpp
index a14c4e0..3a72e70 100644
--- a/src/pdfmm/base/PdfFieldChildrenCollection.cpp
+++ b/src/pdfmm/base/PdfFieldChildrenCollection.cpp
@@ -6,6 +6,7 @@
 
 #include <pdfmm/private/PdfDeclarationsPrivate.h>
 #include "PdfFieldChildrenCollection.h"
+#include "PdfDocument.h"
 #include "PdfField.h"
 #include "PdfArray.h"
 #include "PdfDictionary.h"
@@ -183,6 +184,15 @@ void PdfFieldChildrenCollectionBase::initFields()
     unsigned i = 0;
     for (auto obj : m_kidsArray->GetIndirectIterator())
     {
+        if (!obj->IsIndirect() && obj->IsDictionary())
+        {
+            // Elements refer their object, which has to stay
+            // valid when the array is modified
+            auto& indirectObj = m_field->GetDocument().GetObjects().CreateObject(*obj);
+            (*m_kidsArray)[i] = PdfObject(indirectObj.GetIndirectReference());
+            obj = &indirectObj;
+        }
+
         (*m_fieldMap)[obj->GetIndirectReference()] = i;
         // The annotation may be invalid. In that case we push a placeholder
         if (obj->IsDictionary() && PdfField::TryCreateFromObject(*obj, field))
-- 
2.43.0


From b1d53f72ef33b24e66d32851078fefd614ccbd91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:50:41 +0000
Subject: [PATCH 105/128] fix: Strings with the same non-ASCII text were
 different when only one of them was already decoded

---
 src/pdfmm/base/PdfString.cpp | 13 +++++++++++++
 src/pdfmm/base/PdfString.h   |  1 +
 2 files changed, 14 insertions(+)

diff --git a/src/pdfmm/base/PdfString.cpp b/src/pdfmm/base/PdfString.cpp
index 31be2a3..0e718b0 100644
--- a/src/pdfmm/base/PdfString.cpp
+++ b/src/pdfmm/base/PdfString.cpp
@@ -242,6 +242,7 @@ bool PdfString::operator==(const PdfString& rhs) const
     if (this->m_data == rhs.m_data)
         return true;
 
+    evaluateForComparison(*this, rhs);
     return this->m_data->Chars == rhs.m_data->Chars;
 }
 
@@ -274,6 +275,7 @@ bool PdfString::operator!=(const PdfString& rhs) const
     if (this->m_data == rhs.m_data)
         return false;
 
+    evaluateForComparison(*this, rhs);
     return this->m_data->Chars != rhs.m_data->Chars;
 }
 
@@ -390,6 +392,17 @@ bool PdfString::canPerformComparison(const PdfString& lhs, const PdfString& rhs)
     return false;
 }
 
+// If only one of the strings is already decoded then
+// decode also the other one
+void PdfString::evaluateForComparison(const PdfString& lhs, const PdfString& rhs)
+{
+    if (lhs.isValidText() == rhs.isValidText())
+        return;
+
+    lhs.evaluateString();
+    rhs.evaluateString();
+}
+
 const string& PdfString::GetRawData() const
 {
     if (m_data->State != PdfStringState::RawBuffer)
diff --git a/src/pdfmm/base/PdfString.h b/src/pdfmm/base/PdfString.h
index 69103ff..133bedd 100644
--- a/src/pdfmm/base/PdfString.h
+++ b/src/pdfmm/base/PdfString.h
@@ -142,6 +142,7 @@ private:
     void initFromUtf8String(const std::string_view& view);
     void evaluateString() const;
     bool isValidText() const;
+    static void evaluateForComparison(const PdfString& lhs, const PdfString& rhs);
     static bool canPerformComparison(const PdfString& lhs, const PdfString& rhs);
 
 private:
-- 
2.43.0


From 471dfb7f19f4e1602169c468959e12f8aa0df254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:55:55 +0000
Subject: [PATCH 106/128] fix: Iterating annotations or children of a field did
 not compile

---
 src/pdfmm/base/PdfAnnotationCollection.h    | 4 ++--
 src/pdfmm/base/PdfFieldChildrenCollection.h | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/pdfmm/base/PdfAnnotationCollection.h b/src/pdfmm/base/PdfAnnotationCollection.h
index 11d32f5..25566da 100644
--- a/src/pdfmm/base/PdfAnnotationCollection.h
+++ b/src/pdfmm/base/PdfAnnotationCollection.h
@@ -77,11 +77,11 @@ namespace mm
             }
             value_type operator*()
             {
-                return m_iterator.get();
+                return m_iterator->get();
             }
             value_type operator->()
             {
-                return m_iterator.get();
+                return m_iterator->get();
             }
         private:
             TListIterator m_iterator;
diff --git a/src/pdfmm/base/PdfFieldChildrenCollection.h b/src/pdfmm/base/PdfFieldChildrenCollection.h
index 4057501..0e97b54 100644
--- a/src/pdfmm/base/PdfFieldChildrenCollection.h
+++ b/src/pdfmm/base/PdfFieldChildrenCollection.h
@@ -77,11 +77,11 @@ namespace mm
             }
             value_type operator*()
             {
-                return m_iterator.get();
+                return m_iterator->get();
             }
             value_type operator->()
             {
-                return m_iterator.get();
+                return m_iterator->get();
             }
         private:
             TListIterator m_iterator;
-- 
2.43.0


From a79e08d3bac69df8e51f9da5cdcc0b2a12dd817c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:57:45 +0000
Subject: [PATCH 107/128] fix: Destinations and actions of outlines and
 annotations were used after being garbage collected by a save

---
 src/pdfmm/base/PdfAction.cpp      | 2 +-
 src/pdfmm/base/PdfDestination.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pdfmm/base/PdfAction.cpp b/src/pdfmm/base/PdfAction.cpp
index e429d95..a86bb00 100644
--- a/src/pdfmm/base/PdfAction.cpp
+++ b/src/pdfmm/base/PdfAction.cpp
@@ -89,5 +89,5 @@ void PdfAction::AddToDictionary(PdfDictionary& dictionary) const
     if (dictionary.HasKey("Dest"))
         PDFMM_RAISE_ERROR(PdfErrorCode::ActionAlreadyPresent);
 
-    dictionary.AddKey("A", this->GetObject());
+    dictionary.AddKeyIndirectSafe("A", this->GetObject());
 }
diff --git a/src/pdfmm/base/PdfDestination.cpp b/src/pdfmm/base/PdfDestination.cpp
index 77862f5..8923ee3 100644
--- a/src/pdfmm/base/PdfDestination.cpp
+++ b/src/pdfmm/base/PdfDestination.cpp
@@ -154,7 +154,7 @@ void PdfDestination::AddToDictionary(PdfDictionary& dictionary) const
     if (dictionary.HasKey("A"))
         PDFMM_RAISE_ERROR(PdfErrorCode::ActionAlreadyPresent);
 
-    dictionary.AddKey("Dest", GetObject());
+    dictionary.AddKeyIndirectSafe("Dest", GetObject());
 }
 
 PdfPage* PdfDestination::GetPage()
-- 
2.43.0


From e9ff3b4430447b7d1da8bc3e0bc26da8d7846f03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:58:21 +0000
Subject: [PATCH 108/128] fix: The empty destination of a root outline item was
 used after being garbage collected by a save

---
 src/pdfmm/base/PdfOutlines.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/pdfmm/base/PdfOutlines.cpp b/src/pdfmm/base/PdfOutlines.cpp
index d4b9e49..efa1d6a 100644
--- a/src/pdfmm/base/PdfOutlines.cpp
+++ b/src/pdfmm/base/PdfOutlines.cpp
@@ -273,7 +273,13 @@ void PdfOutlineItem::Erase()
 void PdfOutlineItem::SetDestination(const shared_ptr<PdfDestination>& dest)
 {
     dest->AddToDictionary(this->GetObject().GetDictionary());
-    m_destination = dest;
+
+    // NOTE: Empty destinations are not added to the item, so
+    // their object can be garbage collected
+    if (dest->GetArray().IsEmpty())
+        m_destination = nullptr;
+    else
+        m_destination = dest;
 }
 
 shared_ptr<PdfDestination> PdfOutlineItem::GetDestination() const
-- 
2.43.0


From 8c00a7df60626c877646642fb785f736c5398f35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:58:21 +0000
Subject: [PATCH 109/128] fix: Converting a name tree to a dictionary failed
 with names not in PdfDocEncoding

---
 src/pdfmm/base/PdfNameTree.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/pdfmm/base/PdfNameTree.cpp b/src/pdfmm/base/PdfNameTree.cpp
index 21cbaa0..4126d45 100644
--- a/src/pdfmm/base/PdfNameTree.cpp
+++ b/src/pdfmm/base/PdfNameTree.cpp
@@ -492,8 +492,11 @@ void PdfNameTree::AddToDictionary(PdfObject& obj, PdfDictionary& dict)
         // so we loop in sets of two - getting each pair
         while (it != names.end())
         {
-            // convert all strings into names 
-            PdfName name(it->GetString().GetString());
+            // convert all strings into names. NOTE: PdfName supports only
+            // text in PdfDocEncoding
+            auto& str = it->GetString().GetString();
+            PdfName name = it->GetString().GetState() == PdfStringState::Unicode
+                ? PdfName::FromRaw(str) : PdfName(str);
             it++;
             if (it == names.end())
             {
-- 
2.43.0


From 888aab914a92c56b8f53ec5d05ef4d87dcdca974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:14:10 +0000
Subject: [PATCH 110/128] fix: The placeholders of a signature were written
 again by updates following the signing, destroying it

---
 src/pdfmm/base/PdfSigner.cpp | 47 ++++++++++++++++++++++++++++++++----
 1 file changed, 42 insertions(+), 5 deletions(-)

diff --git a/src/pdfmm/base/PdfSigner.cpp b/src/pdfmm/base/PdfSigner.cpp
index 0979864..517b963 100644
--- a/src/pdfmm/base/PdfSigner.cpp
+++ b/src/pdfmm/base/PdfSigner.cpp
@@ -22,6 +22,9 @@ static void adjustByteRange(StreamDevice& device, size_t byteRangeOffset,
     size_t conentsBeaconOffset, size_t conentsBeaconSize, charbuff& buffer);
 static void setSignature(StreamDevice& device, const string_view& sigData,
     size_t conentsBeaconOffset, charbuff& buffer);
+static PdfArray getByteRange(size_t fileEnd, size_t conentsBeaconOffset, size_t conentsBeaconSize);
+static void signDocument(PdfMemDocument& doc, StreamDevice& device, PdfSigner& signer,
+    PdfSignature& signature, PdfSaveOptions opts);
 static void prepareBeaconsData(size_t signatureSize, string& contentsBeacon, string& byteRangeBeacon);
 
 PdfSigner::~PdfSigner() { }
@@ -34,6 +37,28 @@ string PdfSigner::GetSignatureFilter() const
 
 void mm::SignDocument(PdfMemDocument& doc, StreamDevice& device, PdfSigner& signer,
     PdfSignature& signature, PdfSaveOptions opts)
+{
+    try
+    {
+        signDocument(doc, device, signer, signature, opts);
+    }
+    catch (...)
+    {
+        // Don't leave placeholders in the document, as they
+        // would be written by subsequent savings
+        auto valueObj = signature.GetObject().GetDictionary().FindKey("V");
+        if (valueObj != nullptr && valueObj->IsDictionary())
+        {
+            valueObj->GetDictionary().RemoveKey(PdfName::KeyContents);
+            valueObj->GetDictionary().RemoveKey("ByteRange");
+        }
+
+        throw;
+    }
+}
+
+void signDocument(PdfMemDocument& doc, StreamDevice& device, PdfSigner& signer,
+    PdfSignature& signature, PdfSaveOptions opts)
 {
     charbuff signatureBuf;
     signer.ComputeSignature(signatureBuf, true);
@@ -86,6 +111,15 @@ void mm::SignDocument(PdfMemDocument& doc, StreamDevice& device, PdfSigner& sign
     signatureBuf.resize(beaconSize);
     setSignature(device, signatureBuf, *beacons.ContentsOffset, buffer);
     device.Flush();
+
+    // Replace the placeholders in the document as well, as the object
+    // may be written again by subsequent updates. NOTE: The signature
+    // value must be never encrypted, so write it as it is
+    auto& dict = signature.GetObject().GetDictionary().MustFindKey("V").GetDictionary();
+    auto contents = PdfString::FromRaw(signatureBuf).ToString();
+    dict.AddKey(PdfName::KeyContents, PdfVariant(PdfData(bufferview(contents.data(), contents.size()))));
+    dict.AddKey("ByteRange", getByteRange(device.GetLength(),
+        *beacons.ContentsOffset, beacons.ContentsBeacon.size()));
 }
 
 size_t readForSignature(StreamDevice& device, size_t conentsBeaconOffset, size_t conentsBeaconSize,
@@ -129,16 +163,19 @@ size_t readForSignature(StreamDevice& device, size_t conentsBeaconOffset, size_t
 void adjustByteRange(StreamDevice& device, size_t byteRangeOffset,
     size_t conentsBeaconOffset, size_t conentsBeaconSize, charbuff& buffer)
 {
-    // Get final position
-    size_t fileEnd = device.GetLength();
+    auto arr = getByteRange(device.GetLength(), conentsBeaconOffset, conentsBeaconSize);
+    device.Seek(byteRangeOffset);
+    arr.Write(device, PdfWriteFlags::None, { }, buffer);
+}
+
+PdfArray getByteRange(size_t fileEnd, size_t conentsBeaconOffset, size_t conentsBeaconSize)
+{
     PdfArray arr;
     arr.Add(PdfObject(static_cast<int64_t>(0)));
     arr.Add(PdfObject(static_cast<int64_t>(conentsBeaconOffset)));
     arr.Add(PdfObject(static_cast<int64_t>(conentsBeaconOffset + conentsBeaconSize)));
     arr.Add(PdfObject(static_cast<int64_t>(fileEnd - (conentsBeaconOffset + conentsBeaconSize))));
-
-    device.Seek(byteRangeOffset);
-    arr.Write(device, PdfWriteFlags::None, { }, buffer);
+    return arr;
 }
 
 void setSignature(StreamDevice& device, const string_view& contentsData,
-- 
2.43.0


From 0cbd3ccf405ae6379bff2d90e0c3509947d85c2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:40:30 +0000
Subject: [PATCH 111/128] fix: Widths of the Courier fonts were read out of
 bounds

---
 src/pdfmm/private/PdfStandard14FontData.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/pdfmm/private/PdfStandard14FontData.cpp b/src/pdfmm/private/PdfStandard14FontData.cpp
index 74da268..6356e19 100644
--- a/src/pdfmm/private/PdfStandard14FontData.cpp
+++ b/src/pdfmm/private/PdfStandard14FontData.cpp
@@ -7167,7 +7167,7 @@ const Standard14FontData& mm::GetStandard14FontData(
         },
         {
             CHAR_DATA_COURIER,
-            315,
+            (unsigned)std::size(CHAR_DATA_COURIER),
             PdfFontDescriptorFlags::Symbolic | PdfFontDescriptorFlags::Serif,
             1000,
             PdfFontStretch::Normal,
@@ -7185,7 +7185,7 @@ const Standard14FontData& mm::GetStandard14FontData(
         },
         {
             CHAR_DATA_COURIER_OBLIQUE,
-            315,
+            (unsigned)std::size(CHAR_DATA_COURIER_OBLIQUE),
             PdfFontDescriptorFlags::Symbolic | PdfFontDescriptorFlags::Serif | PdfFontDescriptorFlags::Italic,
             1000,
             PdfFontStretch::Normal,
@@ -7203,7 +7203,7 @@ const Standard14FontData& mm::GetStandard14FontData(
         },
         {
             CHAR_DATA_COURIER_BOLD,
-            315,
+            (unsigned)std::size(CHAR_DATA_COURIER_BOLD),
             PdfFontDescriptorFlags::Symbolic | PdfFontDescriptorFlags::Serif,
             1000,
             PdfFontStretch::Normal,
@@ -7221,7 +7221,7 @@ const Standard14FontData& mm::GetStandard14FontData(
         },
         {
             CHAR_DATA_COURIER_BOLD_OBLIQUE,
-            315,
+            (unsigned)std::size(CHAR_DATA_COURIER_BOLD_OBLIQUE),
             PdfFontDescriptorFlags::Symbolic | PdfFontDescriptorFlags::Serif | PdfFontDescriptorFlags::Italic,
             1000,
             PdfFontStretch::Normal,
-- 
2.43.0


From b2f153ce6cc41f209510990cc576f2fd1f016166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:09:03 +0000
Subject: [PATCH 112/128] fix: Threads using a built-in encoding for the first
 time at the same time encoded text wrongly

---
 src/pdfmm/base/PdfEncodingMap.cpp | 20 +++++++++++---------
 src/pdfmm/base/PdfEncodingMap.h   |  4 ++++
 2 files changed, 15 insertions(+), 9 deletions(-)

diff --git a/src/pdfmm/base/PdfEncodingMap.cpp b/src/pdfmm/base/PdfEncodingMap.cpp
index f707770..409a265 100644
--- a/src/pdfmm/base/PdfEncodingMap.cpp
+++ b/src/pdfmm/base/PdfEncodingMap.cpp
@@ -530,16 +530,18 @@ PdfBuiltInEncoding::PdfBuiltInEncoding(const PdfName& name)
 
 void PdfBuiltInEncoding::InitEncodingTable()
 {
-    if (!m_EncodingTable.empty())
-        return;
-
-    const char32_t* cpUnicodeTable = this->GetToUnicodeTable();
-    for (size_t i = 0; i < 256; i++)
+    // NOTE: The instances of the built-in encodings are shared
+    // by all documents, which may be used by different threads
+    std::call_once(m_InitOnce, [this]()
     {
-        // fill the table with data
-        m_EncodingTable[cpUnicodeTable[i]] =
-            static_cast<unsigned char>(i);
-    }
+        const char32_t* cpUnicodeTable = this->GetToUnicodeTable();
+        for (size_t i = 0; i < 256; i++)
+        {
+            // fill the table with data
+            m_EncodingTable[cpUnicodeTable[i]] =
+                static_cast<unsigned char>(i);
+        }
+    });
 }
 
 bool PdfBuiltInEncoding::tryGetCharCode(char32_t codePoint, PdfCharCode& codeUnit) const
diff --git a/src/pdfmm/base/PdfEncodingMap.h b/src/pdfmm/base/PdfEncodingMap.h
index c3ca2c8..c67d9af 100644
--- a/src/pdfmm/base/PdfEncodingMap.h
+++ b/src/pdfmm/base/PdfEncodingMap.h
@@ -8,6 +8,9 @@
 #define PDF_ENCODING_MAP_H
 
 #include "PdfDeclarations.h"
+
+#include <mutex>
+
 #include "PdfObject.h"
 #include "PdfName.h"
 #include "PdfCharCodeMap.h"
@@ -275,6 +278,7 @@ private:
 
 private:
     PdfName m_Name;         // The name of the encoding
+    std::once_flag m_InitOnce;
     std::unordered_map<char32_t, char> m_EncodingTable; // The helper table for conversions into this encoding
 };
 
-- 
2.43.0


From a59bd8a53b8c2274a336bbba7a0de64ae4190c7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:12:07 +0000
Subject: [PATCH 113/128] fix: The fontconfig wrapper was created and replaced
 by several threads at the same time

---
 src/pdfmm/base/PdfFontManager.cpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/pdfmm/base/PdfFontManager.cpp b/src/pdfmm/base/PdfFontManager.cpp
index c2fd370..82f5708 100644
--- a/src/pdfmm/base/PdfFontManager.cpp
+++ b/src/pdfmm/base/PdfFontManager.cpp
@@ -432,13 +432,13 @@ PdfFont* PdfFontManager::getImportedFont(const PdfFontMetricsConstPtr& metrics,
 
 void PdfFontManager::SetFontConfigWrapper(const shared_ptr<PdfFontConfigWrapper>& fontConfig)
 {
-    if (m_fontConfig == fontConfig)
+    if (std::atomic_load(&m_fontConfig) == fontConfig)
         return;
 
     if (fontConfig == nullptr)
         PDFMM_RAISE_ERROR_INFO(PdfErrorCode::InvalidHandle, "Fontconfig wrapper can't be null");
 
-    m_fontConfig = fontConfig;
+    std::atomic_store(&m_fontConfig, fontConfig);
 }
 
 PdfFontConfigWrapper& PdfFontManager::GetFontConfigWrapper()
@@ -449,11 +449,14 @@ PdfFontConfigWrapper& PdfFontManager::GetFontConfigWrapper()
 
 shared_ptr<PdfFontConfigWrapper> PdfFontManager::ensureInitializedFontConfig()
 {
-    auto ret = m_fontConfig;
+    // NOTE: The wrapper is shared by all documents,
+    // which may be used by different threads
+    auto ret = std::atomic_load(&m_fontConfig);
     if (ret == nullptr)
     {
-        ret.reset(new PdfFontConfigWrapper());
-        m_fontConfig = ret;
+        auto created = std::make_shared<PdfFontConfigWrapper>();
+        if (std::atomic_compare_exchange_strong(&m_fontConfig, &ret, created))
+            ret = std::move(created);
     }
 
     return ret;
-- 
2.43.0


From 75109e5f7700081aa98cb58f26d061954561e9a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:12:07 +0000
Subject: [PATCH 114/128] fix: The order in which fonts were embedded depended
 on other documents of the process

---
 src/pdfmm/base/PdfFontManager.cpp | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/pdfmm/base/PdfFontManager.cpp b/src/pdfmm/base/PdfFontManager.cpp
index 82f5708..fe3ccc8 100644
--- a/src/pdfmm/base/PdfFontManager.cpp
+++ b/src/pdfmm/base/PdfFontManager.cpp
@@ -314,12 +314,18 @@ PdfFont* PdfFontManager::GetFont(FT_Face face, const PdfFontCreateParams& params
 
 void PdfFontManager::EmbedFonts()
 {
-    // Embed all imported fonts
+    // Embed all imported fonts, in the order of their objects: the order
+    // of the map depends on the process-wide identifiers of the encodings
+    vector<PdfFont*> fonts;
     for (auto& pair : m_importedFonts)
-    {
-        for (auto& font : pair.second)
-            font->EmbedFont();
-    }
+        fonts.insert(fonts.end(), pair.second.begin(), pair.second.end());
+
+    std::sort(fonts.begin(), fonts.end(), [](const PdfFont* lhs, const PdfFont* rhs) {
+        return lhs->GetObject().GetIndirectReference() < rhs->GetObject().GetIndirectReference();
+    });
+
+    for (auto font : fonts)
+        font->EmbedFont();
 
     // Clear imported font cache
     // TODO: Don't clean standard14 and full embedded fonts
-- 
2.43.0


From e108a9420a4298feace6ef61c4facad692313e42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:43:04 +0000
Subject: [PATCH 115/128] fix: Setting an appearance with a state was added to
 the stream of an appearance without one, and never found

---
 src/pdfmm/base/PdfAnnotation.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pdfmm/base/PdfAnnotation.cpp b/src/pdfmm/base/PdfAnnotation.cpp
index 6ca8597..c82a9b7 100644
--- a/src/pdfmm/base/PdfAnnotation.cpp
+++ b/src/pdfmm/base/PdfAnnotation.cpp
@@ -86,7 +86,7 @@ void mm::SetAppearanceStreamForObject(PdfObject& obj, PdfXObjectForm& xobj,
     {
         // when the state is defined, then the appearance is expected to be a dictionary
         auto apInnerObj = apObj->GetDictionary().FindKey(name);
-        if (apInnerObj == nullptr || !apInnerObj->IsDictionary())
+        if (apInnerObj == nullptr || !apInnerObj->IsDictionary() || apInnerObj->HasStream())
             apInnerObj = &apObj->GetDictionary().AddKey(name, PdfDictionary());
 
         apInnerObj->GetDictionary().AddKeyIndirectSafe(state, xobj.GetObject());
-- 
2.43.0


From 437ee36deb3b00bbf05c4fdfdc156ba23384b8a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:53:35 +0000
Subject: [PATCH 116/128] fix: A variant which could not be copied was left
 pointing to its deleted value

---
 src/pdfmm/base/PdfVariant.cpp | 29 ++++++++++++++++++-----------
 1 file changed, 18 insertions(+), 11 deletions(-)

diff --git a/src/pdfmm/base/PdfVariant.cpp b/src/pdfmm/base/PdfVariant.cpp
index 170c458..fcc7141 100644
--- a/src/pdfmm/base/PdfVariant.cpp
+++ b/src/pdfmm/base/PdfVariant.cpp
@@ -100,7 +100,7 @@ PdfVariant::PdfVariant(PdfData&& data) noexcept
 
 
 PdfVariant::PdfVariant(const PdfVariant& rhs)
-    : m_Data{ }
+    : PdfVariant(PdfDataType::Null)
 {
     assign(rhs);
 }
@@ -140,6 +140,9 @@ void PdfVariant::clear()
         default:
             break;
     }
+
+    m_DataType = PdfDataType::Null;
+    m_Data = { };
 }
 
 void PdfVariant::Write(OutputStreamDevice& device, PdfWriteFlags writeMode,
@@ -239,25 +242,27 @@ void PdfVariant::ToString(string& str) const
 
 PdfVariant& PdfVariant::operator=(const PdfVariant& rhs)
 {
-    clear();
-    assign(rhs);
-    return *this;
+    if (this == &rhs)
+        return *this;
+
+    // NOTE: Copy first, so the value is kept if copying
+    // fails or if rhs is part of it
+    PdfVariant copy(rhs);
+    return *this = std::move(copy);
 }
 
 PdfVariant& PdfVariant::operator=(PdfVariant&& rhs) noexcept
 {
-    clear();
-    m_DataType = rhs.m_DataType;
-    m_Data = rhs.m_Data;
-    rhs.m_DataType = PdfDataType::Null;
-    rhs.m_Data = { };
+    // NOTE: rhs may be part of the value that is replaced
+    PdfVariant moved(std::move(rhs));
+    std::swap(m_DataType, moved.m_DataType);
+    std::swap(m_Data, moved.m_Data);
     return *this;
 }
 
 void PdfVariant::assign(const PdfVariant& rhs)
 {
-    m_DataType = rhs.m_DataType;
-    switch (m_DataType)
+    switch (rhs.m_DataType)
     {
         case PdfDataType::Array:
         {
@@ -297,6 +302,8 @@ void PdfVariant::assign(const PdfVariant& rhs)
         default:
             break;
     };
+
+    m_DataType = rhs.m_DataType;
 }
 
 const char* PdfVariant::GetDataTypeString() const
-- 
2.43.0


From b0104d39dc96282a5a1067ac33d494e68c999e22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:53:35 +0000
Subject: [PATCH 117/128] fix: Running out of memory while values were moved
 terminated the process

---
 src/pdfmm/base/PdfObject.cpp       | 6 +++---
 src/pdfmm/base/PdfObject.h         | 6 +++---
 src/pdfmm/base/PdfObjectStream.cpp | 2 +-
 src/pdfmm/base/PdfObjectStream.h   | 2 +-
 src/pdfmm/base/PdfVariant.cpp      | 6 +++---
 src/pdfmm/base/PdfVariant.h        | 6 +++---
 src/pdfmm/common/nullable.h        | 4 ++++
 7 files changed, 18 insertions(+), 14 deletions(-)

diff --git a/src/pdfmm/base/PdfObject.cpp b/src/pdfmm/base/PdfObject.cpp
index 1378442..84c723e 100644
--- a/src/pdfmm/base/PdfObject.cpp
+++ b/src/pdfmm/base/PdfObject.cpp
@@ -77,7 +77,7 @@ PdfObject::PdfObject(const PdfArray& arr)
     m_Variant.GetArray().SetOwner(*this);
 }
 
-PdfObject::PdfObject(PdfArray&& arr) noexcept
+PdfObject::PdfObject(PdfArray&& arr)
     : m_Variant(std::move(arr)), m_IsDirty(false)
 {
     initObject();
@@ -91,7 +91,7 @@ PdfObject::PdfObject(const PdfDictionary& dict)
     m_Variant.GetDictionary().SetOwner(*this);
 }
 
-PdfObject::PdfObject(PdfDictionary&& dict) noexcept
+PdfObject::PdfObject(PdfDictionary&& dict)
     : m_Variant(std::move(dict)), m_IsDirty(false)
 {
     initObject();
@@ -377,7 +377,7 @@ PdfObject& PdfObject::operator=(const PdfObject& rhs)
     return *this;
 }
 
-PdfObject& PdfObject::operator=(PdfObject&& rhs) noexcept
+PdfObject& PdfObject::operator=(PdfObject&& rhs)
 {
     moveFrom(rhs);
     SetDirty();
diff --git a/src/pdfmm/base/PdfObject.h b/src/pdfmm/base/PdfObject.h
index eb7e589..6c5351d 100644
--- a/src/pdfmm/base/PdfObject.h
+++ b/src/pdfmm/base/PdfObject.h
@@ -101,14 +101,14 @@ public:
      *  \param arr the value of the this PdfObject
      */
     PdfObject(const PdfArray& arr);
-    PdfObject(PdfArray&& arr) noexcept;
+    PdfObject(PdfArray&& arr);
 
     /** Construct a PdfObject with PdfDictionary as value.
      *
      *  \param dict the value of the this PdfObject
      */
     PdfObject(const PdfDictionary& dict);
-    PdfObject(PdfDictionary&& dict) noexcept;
+    PdfObject(PdfDictionary&& dict);
 
     /** Creates a copy of an existing PdfObject.
      *  All associated objects and streams will be copied along with the PdfObject.
@@ -367,7 +367,7 @@ public:
      *  \returns a reference to this object
      */
     PdfObject& operator=(const PdfObject& rhs);
-    PdfObject& operator=(PdfObject&& rhs) noexcept;
+    PdfObject& operator=(PdfObject&& rhs);
 
     operator const PdfVariant& () const;
 
diff --git a/src/pdfmm/base/PdfObjectStream.cpp b/src/pdfmm/base/PdfObjectStream.cpp
index 217e8dd..0d2227a 100644
--- a/src/pdfmm/base/PdfObjectStream.cpp
+++ b/src/pdfmm/base/PdfObjectStream.cpp
@@ -185,7 +185,7 @@ PdfObjectStream& PdfObjectStream::operator=(const PdfObjectStream& rhs)
     return (*this);
 }
 
-PdfObjectStream& PdfObjectStream::operator=(PdfObjectStream&& rhs) noexcept
+PdfObjectStream& PdfObjectStream::operator=(PdfObjectStream&& rhs)
 {
     MoveFrom(rhs);
     return (*this);
diff --git a/src/pdfmm/base/PdfObjectStream.h b/src/pdfmm/base/PdfObjectStream.h
index 76ca9a8..c6ffdf0 100644
--- a/src/pdfmm/base/PdfObjectStream.h
+++ b/src/pdfmm/base/PdfObjectStream.h
@@ -189,7 +189,7 @@ public:
      */
     PdfObjectStream& operator=(const PdfObjectStream& rhs);
 
-    PdfObjectStream& operator=(PdfObjectStream&& rhs) noexcept;
+    PdfObjectStream& operator=(PdfObjectStream&& rhs);
 
     const PdfObjectStreamProvider& GetProvider() const { return *m_Provider; }
 
diff --git a/src/pdfmm/base/PdfVariant.cpp b/src/pdfmm/base/PdfVariant.cpp
index fcc7141..79cd98c 100644
--- a/src/pdfmm/base/PdfVariant.cpp
+++ b/src/pdfmm/base/PdfVariant.cpp
@@ -68,7 +68,7 @@ PdfVariant::PdfVariant(const PdfArray& arr)
     m_Data.Data = new PdfArray(arr);
 }
 
-PdfVariant::PdfVariant(PdfArray&& arr) noexcept
+PdfVariant::PdfVariant(PdfArray&& arr)
     : PdfVariant(PdfDataType::Array)
 {
     m_Data.Data = new PdfArray(std::move(arr));
@@ -80,7 +80,7 @@ PdfVariant::PdfVariant(const PdfDictionary& dict)
     m_Data.Data = new PdfDictionary(dict);
 }
 
-PdfVariant::PdfVariant(PdfDictionary&& dict) noexcept
+PdfVariant::PdfVariant(PdfDictionary&& dict)
     : PdfVariant(PdfDataType::Dictionary)
 {
     m_Data.Data = new PdfDictionary(std::move(dict));
@@ -92,7 +92,7 @@ PdfVariant::PdfVariant(const PdfData& data)
     m_Data.Data = new PdfData(data);
 }
 
-PdfVariant::PdfVariant(PdfData&& data) noexcept
+PdfVariant::PdfVariant(PdfData&& data)
     : PdfVariant(PdfDataType::RawData)
 {
     m_Data.Data = new PdfData(std::move(data));
diff --git a/src/pdfmm/base/PdfVariant.h b/src/pdfmm/base/PdfVariant.h
index 3a401ae..4383e9a 100644
--- a/src/pdfmm/base/PdfVariant.h
+++ b/src/pdfmm/base/PdfVariant.h
@@ -88,19 +88,19 @@ public:
      *  \param arr a list of variants
      */
     PdfVariant(const PdfArray& arr);
-    PdfVariant(PdfArray&& arr) noexcept;
+    PdfVariant(PdfArray&& arr);
 
     /** Construct a PdfVariant that is a dictionary.
      *  \param dict the value of the dictionary.
      */
     PdfVariant(const PdfDictionary& dict);
-    PdfVariant(PdfDictionary&& dict) noexcept;
+    PdfVariant(PdfDictionary&& dict);
 
     /** Construct a PdfVariant that contains raw PDF data.
      *  \param rData raw and valid PDF data.
      */
     PdfVariant(const PdfData& data);
-    PdfVariant(PdfData&& data) noexcept;
+    PdfVariant(PdfData&& data);
 
     /** Constructs a new PdfVariant which has the same
      *  contents as rhs.
diff --git a/src/pdfmm/common/nullable.h b/src/pdfmm/common/nullable.h
index 99b2fa1..a7bd1b5 100644
--- a/src/pdfmm/common/nullable.h
+++ b/src/pdfmm/common/nullable.h
@@ -39,8 +39,12 @@ namespace COMMON_NAMESPACE
 
         nullable(const nullable& value) = default;
 
+        nullable(nullable&& value) = default;
+
         nullable& operator=(const nullable& value) = default;
 
+        nullable& operator=(nullable&& value) = default;
+
         nullable& operator=(T value)
         {
             m_hasValue = true;
-- 
2.43.0


From 61860f551d8f77fd32757e6b980dcf26e59e69da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:53:35 +0000
Subject: [PATCH 118/128] fix: The font cache kept a font which could not be
 stored after it was destroyed

---
 src/pdfmm/base/PdfFontManager.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/pdfmm/base/PdfFontManager.cpp b/src/pdfmm/base/PdfFontManager.cpp
index fe3ccc8..f52b56e 100644
--- a/src/pdfmm/base/PdfFontManager.cpp
+++ b/src/pdfmm/base/PdfFontManager.cpp
@@ -89,9 +89,12 @@ string PdfFontManager::GenerateSubsetPrefix()
 
 PdfFont* PdfFontManager::addImported(vector<PdfFont*>& fonts, unique_ptr<PdfFont>&& font)
 {
-    fonts.push_back(font.get());
+    // NOTE: Don't leave a pointer in the cache if the font can't be stored
+    fonts.reserve(fonts.size() + 1);
     auto inserted = m_fonts.insert({ font->GetObject().GetIndirectReference(), Storage{ false, std::move(font) }});
-    return inserted.first->second.Font.get();
+    auto ret = inserted.first->second.Font.get();
+    fonts.push_back(ret);
+    return ret;
 }
 
 PdfFont* PdfFontManager::GetLoadedFont(const PdfObject& obj)
-- 
2.43.0


From 4aca7bb6caeb0a73c7571ab3034c7e27f7fd83d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:57:07 +0000
Subject: [PATCH 119/128] fix: Failing to finish the encoding of a stream was
 ignored, leaving it truncated

---
 src/pdfmm/base/PdfFilter.cpp       | 25 ++++++++++++++++-----
 src/pdfmm/base/PdfObjectStream.cpp | 36 +++++++++++++++++++++++++-----
 src/pdfmm/base/PdfObjectStream.h   |  3 ++-
 src/pdfmm/base/PdfOutputDevice.cpp |  2 ++
 src/pdfmm/base/PdfOutputDevice.h   |  3 +++
 src/pdfmm/base/PdfOutputStream.cpp | 12 +++++++++-
 src/pdfmm/base/PdfOutputStream.h   |  9 +++++++-
 7 files changed, 76 insertions(+), 14 deletions(-)

diff --git a/src/pdfmm/base/PdfFilter.cpp b/src/pdfmm/base/PdfFilter.cpp
index b393682..af0d3e8 100644
--- a/src/pdfmm/base/PdfFilter.cpp
+++ b/src/pdfmm/base/PdfFilter.cpp
@@ -30,22 +30,19 @@ private:
     }
     ~PdfFilteredEncodeStream()
     {
-        if (m_FilterFailed)
-            return;
-
         try
         {
-            m_filter->EndEncode();
+            endEncode();
         }
         catch (...)
         {
-            // Destructors can't throw
+            // Destructors of streams owned by pointers can't throw
             mm::LogMessage(PdfLogSeverity::Error, "Error while finishing the encoding of a stream");
         }
     }
 public:
     PdfFilteredEncodeStream(const shared_ptr<OutputStream>& outputStream, PdfFilterType filterType)
-        : m_OutputStream(outputStream), m_FilterFailed(false)
+        : m_OutputStream(outputStream), m_FilterFailed(false), m_Finished(false)
     {
         init(*outputStream, filterType);
     }
@@ -62,10 +59,25 @@ protected:
             throw;
         }
     }
+    void finish() override
+    {
+        endEncode();
+        Finish(*m_OutputStream);
+    }
+private:
+    void endEncode()
+    {
+        if (m_FilterFailed || m_Finished)
+            return;
+
+        m_Finished = true;
+        m_filter->EndEncode();
+    }
 private:
     shared_ptr<OutputStream> m_OutputStream;
     unique_ptr<PdfFilter> m_filter;
     bool m_FilterFailed;
+    bool m_Finished;
 };
 
 // An OutputStream class that actually perform the deecoding
@@ -155,6 +167,7 @@ public:
             i--;
         }
     }
+    ~PdfBufferedDecodeStream() noexcept { }
 protected:
     size_t readBuffer(char* buffer, size_t size, bool& eof) override
     {
diff --git a/src/pdfmm/base/PdfObjectStream.cpp b/src/pdfmm/base/PdfObjectStream.cpp
index 0d2227a..7126640 100644
--- a/src/pdfmm/base/PdfObjectStream.cpp
+++ b/src/pdfmm/base/PdfObjectStream.cpp
@@ -426,10 +426,34 @@ PdfObjectInputStream& PdfObjectInputStream::operator=(PdfObjectInputStream&& rhs
 PdfObjectOutputStream::PdfObjectOutputStream()
     : m_stream(nullptr) { }
 
-PdfObjectOutputStream::~PdfObjectOutputStream()
+PdfObjectOutputStream::~PdfObjectOutputStream() noexcept(false)
+{
+    if (m_stream == nullptr)
+        return;
+
+    try
+    {
+        finish();
+    }
+    catch (...)
+    {
+        if (m_stream != nullptr)
+            m_stream->m_locked = false;
+
+        // NOTE: Another exception is already reporting the failure
+        if (std::uncaught_exceptions() == 0)
+            throw;
+    }
+}
+
+void PdfObjectOutputStream::finish()
 {
     if (m_stream != nullptr)
     {
+        // Finish the encoding of the data
+        if (m_output != nullptr)
+            Finish(*m_output);
+
         // Set filters on the stream and on the parent object
         // NOTE: if filters are not defined assume we will
         // preserve them on the parent
@@ -461,16 +485,18 @@ PdfObjectOutputStream::~PdfObjectOutputStream()
         }
 
         // Unlock the stream
-        m_stream->m_locked = false;
+        auto stream = m_stream;
+        m_stream = nullptr;
+        stream->m_locked = false;
 
-        auto document = m_stream->GetParent().GetDocument();
+        auto document = stream->GetParent().GetDocument();
         if (document != nullptr)
-            document->GetObjects().BeginAppendStream(*m_stream);
+            document->GetObjects().BeginAppendStream(*stream);
     }
 }
 
 PdfObjectOutputStream::PdfObjectOutputStream(PdfObjectOutputStream&& rhs) noexcept
-    : m_filters(std::move(rhs.m_filters))
+    : m_filters(std::move(rhs.m_filters)), m_output(std::move(rhs.m_output))
 {
     utls::move(rhs.m_stream, m_stream);
 }
diff --git a/src/pdfmm/base/PdfObjectStream.h b/src/pdfmm/base/PdfObjectStream.h
index c6ffdf0..d6f1df0 100644
--- a/src/pdfmm/base/PdfObjectStream.h
+++ b/src/pdfmm/base/PdfObjectStream.h
@@ -49,7 +49,7 @@ class PdfObjectOutputStream : public OutputStream
     friend class PdfObjectStream;
 public:
     PdfObjectOutputStream();
-    ~PdfObjectOutputStream();
+    ~PdfObjectOutputStream() noexcept(false);
     PdfObjectOutputStream(PdfObjectOutputStream&& rhs) noexcept;
 private:
     PdfObjectOutputStream(PdfObjectStream& stream, PdfFilterList&& filters,
@@ -61,6 +61,7 @@ private:
 protected:
     void writeBuffer(const char* buffer, size_t size) override;
     void flush() override;
+    void finish() override;
 public:
     PdfObjectOutputStream& operator=(PdfObjectOutputStream&& rhs) noexcept;
 private:
diff --git a/src/pdfmm/base/PdfOutputDevice.cpp b/src/pdfmm/base/PdfOutputDevice.cpp
index 333ce9f..eedc1a9 100644
--- a/src/pdfmm/base/PdfOutputDevice.cpp
+++ b/src/pdfmm/base/PdfOutputDevice.cpp
@@ -18,6 +18,8 @@ OutputStreamDevice::OutputStreamDevice(bool init)
         SetAccess(DeviceAccess::Write);
 }
 
+OutputStreamDevice::~OutputStreamDevice() noexcept { }
+
 void OutputStreamDevice::checkWrite() const
 {
     EnsureAccess(DeviceAccess::Write);
diff --git a/src/pdfmm/base/PdfOutputDevice.h b/src/pdfmm/base/PdfOutputDevice.h
index c20d1f3..20332a1 100644
--- a/src/pdfmm/base/PdfOutputDevice.h
+++ b/src/pdfmm/base/PdfOutputDevice.h
@@ -21,6 +21,9 @@ protected:
     OutputStreamDevice();
     OutputStreamDevice(bool init);
 
+public:
+    ~OutputStreamDevice() noexcept;
+
 protected:
     void checkWrite() const override;
 };
diff --git a/src/pdfmm/base/PdfOutputStream.cpp b/src/pdfmm/base/PdfOutputStream.cpp
index b73fdb4..d28dfea 100644
--- a/src/pdfmm/base/PdfOutputStream.cpp
+++ b/src/pdfmm/base/PdfOutputStream.cpp
@@ -12,7 +12,7 @@ using namespace mm;
 
 OutputStream::OutputStream() { }
 
-OutputStream::~OutputStream() { }
+OutputStream::~OutputStream() noexcept(false) { }
 
 void OutputStream::Write(char ch)
 {
@@ -59,6 +59,16 @@ void OutputStream::flush()
     // Do nothing
 }
 
+void OutputStream::Finish(OutputStream& stream)
+{
+    stream.finish();
+}
+
+void OutputStream::finish()
+{
+    // Do nothing
+}
+
 void OutputStream::checkWrite() const
 {
     // Do nothing
diff --git a/src/pdfmm/base/PdfOutputStream.h b/src/pdfmm/base/PdfOutputStream.h
index ae9c7d2..ac76812 100644
--- a/src/pdfmm/base/PdfOutputStream.h
+++ b/src/pdfmm/base/PdfOutputStream.h
@@ -18,7 +18,8 @@ class PDFMM_API OutputStream
 {
 public:
     OutputStream();
-    virtual ~OutputStream();
+    // NOTE: Streams may have data left to write when they are destroyed
+    virtual ~OutputStream() noexcept(false);
 
     /** Write the character in the device
      *
@@ -44,11 +45,17 @@ public:
 protected:
     static void WriteBuffer(OutputStream& stream, const char* buffer, size_t size);
     static void Flush(OutputStream& stream);
+    static void Finish(OutputStream& stream);
 
 protected:
     virtual void writeBuffer(const char* buffer, size_t size) = 0;
     virtual void flush();
 
+    /** Write what is still missing when there's no more data
+     * By default does nothing
+     */
+    virtual void finish();
+
     /** Optional checks before writing
      * By default does nothing
      */
-- 
2.43.0


From 2f3a24b0f4698a9616b003aaa2096164af798026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:57:07 +0000
Subject: [PATCH 120/128] fix: A stream stayed locked after failing to be
 opened

---
 src/pdfmm/base/PdfObjectStream.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/pdfmm/base/PdfObjectStream.cpp b/src/pdfmm/base/PdfObjectStream.cpp
index 7126640..6b5f889 100644
--- a/src/pdfmm/base/PdfObjectStream.cpp
+++ b/src/pdfmm/base/PdfObjectStream.cpp
@@ -395,16 +395,17 @@ PdfObjectInputStream::~PdfObjectInputStream()
 }
 
 PdfObjectInputStream::PdfObjectInputStream(PdfObjectInputStream&& rhs) noexcept
+    : m_input(std::move(rhs.m_input)), m_MediaFilters(std::move(rhs.m_MediaFilters)),
+    m_MediaDecodeParms(std::move(rhs.m_MediaDecodeParms))
 {
     utls::move(rhs.m_stream, m_stream);
-    utls::move(rhs.m_MediaDecodeParms, m_MediaDecodeParms);
 }
 
 PdfObjectInputStream::PdfObjectInputStream(PdfObjectStream& stream, bool raw)
     : m_stream(&stream)
 {
-    m_stream->m_locked = true;
     m_input = stream.getInputStream(raw, m_MediaFilters, m_MediaDecodeParms);
+    m_stream->m_locked = true;
 }
 
 size_t PdfObjectInputStream::readBuffer(char* buffer, size_t size, bool& eof)
@@ -420,6 +421,9 @@ bool PdfObjectInputStream::readChar(char& ch)
 PdfObjectInputStream& PdfObjectInputStream::operator=(PdfObjectInputStream&& rhs) noexcept
 {
     utls::move(rhs.m_stream, m_stream);
+    m_input = std::move(rhs.m_input);
+    m_MediaFilters = std::move(rhs.m_MediaFilters);
+    m_MediaDecodeParms = std::move(rhs.m_MediaDecodeParms);
     return *this;
 }
 
@@ -542,10 +546,10 @@ PdfObjectOutputStream::PdfObjectOutputStream(PdfObjectStream& stream,
         m_output = stream.m_Provider->GetOutputStream(stream.GetParent());
     }
 
-    m_stream->m_locked = true;
-
     if (buffer.size() != 0)
         WriteBuffer(*m_output, buffer.data(), buffer.size());
+
+    m_stream->m_locked = true;
 }
 
 void PdfObjectOutputStream::writeBuffer(const char* buffer, size_t size)
-- 
2.43.0


From ab9407c464e732f80aa8e87b0eb46ea17e634a6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:00:00 +0000
Subject: [PATCH 121/128] fix: Failing to store drawing operators was ignored,
 leaving them truncated

---
 src/pdfmm/base/PdfStringStream.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pdfmm/base/PdfStringStream.cpp b/src/pdfmm/base/PdfStringStream.cpp
index 14f03b7..f981389 100644
--- a/src/pdfmm/base/PdfStringStream.cpp
+++ b/src/pdfmm/base/PdfStringStream.cpp
@@ -17,6 +17,8 @@ PdfStringStream::PdfStringStream()
     : m_stream(new outstringstream())
 {
     m_stream->imbue(utls::GetInvariantLocale());
+    // Don't ignore failures to store what is written
+    m_stream->exceptions(std::ios_base::badbit | std::ios_base::failbit);
 }
 
 PdfStringStream& PdfStringStream::operator<<(float val)
-- 
2.43.0


From 24e83cbfe9d3ce87888d3c3a2229fba5085f3e2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:32:54 +0000
Subject: [PATCH 122/128] fix: The encryption dictionary was left in the
 document if the write failed early

---
 src/pdfmm/base/PdfWriter.cpp | 52 ++++++++++++++++++------------------
 1 file changed, 26 insertions(+), 26 deletions(-)

diff --git a/src/pdfmm/base/PdfWriter.cpp b/src/pdfmm/base/PdfWriter.cpp
index a383283..52a169c 100644
--- a/src/pdfmm/base/PdfWriter.cpp
+++ b/src/pdfmm/base/PdfWriter.cpp
@@ -73,29 +73,29 @@ void PdfWriter::Write(OutputStreamDevice& device)
 {
     CreateFileIdentifier(m_identifier, *m_Trailer, &m_originalIdentifier);
 
-    // setup encrypt dictionary
-    if (m_Encrypt != nullptr)
+    try
     {
-        // NOTE: The key depends on the first identifier in the trailer, which
-        // is retained with updates as the existing objects are not written again
-        if (m_IncrementalUpdate && !m_originalIdentifier.IsEmpty())
-            m_Encrypt->GenerateEncryptionKey(m_originalIdentifier);
-        else
-            m_Encrypt->GenerateEncryptionKey(m_identifier);
+        // setup encrypt dictionary
+        if (m_Encrypt != nullptr)
+        {
+            // NOTE: The key depends on the first identifier in the trailer, which
+            // is retained with updates as the existing objects are not written again
+            if (m_IncrementalUpdate && !m_originalIdentifier.IsEmpty())
+                m_Encrypt->GenerateEncryptionKey(m_originalIdentifier);
+            else
+                m_Encrypt->GenerateEncryptionKey(m_identifier);
 
-        // Add our own Encryption dictionary
-        m_EncryptObj = &m_Objects->CreateDictionaryObject();
-        m_Encrypt->CreateEncryptionDictionary(m_EncryptObj->GetDictionary());
-    }
+            // Add our own Encryption dictionary
+            m_EncryptObj = &m_Objects->CreateDictionaryObject();
+            m_Encrypt->CreateEncryptionDictionary(m_EncryptObj->GetDictionary());
+        }
 
-    unique_ptr<PdfXRef> xRef;
-    if (m_UseXRefStream)
-        xRef.reset(new PdfXRefStream(*this));
-    else
-        xRef.reset(new PdfXRef(*this));
+        unique_ptr<PdfXRef> xRef;
+        if (m_UseXRefStream)
+            xRef.reset(new PdfXRefStream(*this));
+        else
+            xRef.reset(new PdfXRef(*this));
 
-    try
-    {
         if (!m_IncrementalUpdate)
             WritePdfHeader(device);
 
@@ -105,6 +105,13 @@ void PdfWriter::Write(OutputStreamDevice& device)
             xRef->SetFirstEmptyBlock();
 
         xRef->Write(device, m_buffer);
+
+        // P.Zent: Delete Encryption dictionary (cannot be reused)
+        if (m_EncryptObj != nullptr)
+        {
+            m_Objects->RemoveObject(m_EncryptObj->GetIndirectReference());
+            m_EncryptObj = nullptr;
+        }
     }
     catch (PdfError& e)
     {
@@ -129,13 +136,6 @@ void PdfWriter::Write(OutputStreamDevice& device)
 
         throw;
     }
-
-    // P.Zent: Delete Encryption dictionary (cannot be reused)
-    if (m_EncryptObj != nullptr)
-    {
-        m_Objects->RemoveObject(m_EncryptObj->GetIndirectReference());
-        m_EncryptObj = nullptr;
-    }
 }
 
 void PdfWriter::WritePdfHeader(OutputStreamDevice& device)
-- 
2.43.0


From aea159b376aa401cd9fd80e803787b3459969910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:35:39 +0000
Subject: [PATCH 123/128] fix: A stream whose compression failed while saving
 was left without its filter

---
 src/pdfmm/base/PdfObjectStream.cpp | 63 ++++++++++++++++++++++++------
 1 file changed, 52 insertions(+), 11 deletions(-)

diff --git a/src/pdfmm/base/PdfObjectStream.cpp b/src/pdfmm/base/PdfObjectStream.cpp
index 6b5f889..d339153 100644
--- a/src/pdfmm/base/PdfObjectStream.cpp
+++ b/src/pdfmm/base/PdfObjectStream.cpp
@@ -204,38 +204,79 @@ size_t PdfObjectStream::GetLength() const
 void PdfObjectStream::MoveFrom(PdfObjectStream& rhs)
 {
     ensureClosed();
-    if (!m_Provider->TryMoveFrom(std::move(*rhs.m_Provider)))
-    {
-        auto stream = rhs.GetInputStream(true);
-        this->SetData(stream, true);
-        m_Provider->Clear();
-    }
 
-    // Fix the /Filter and /DecodeParms keys for
-    // both objects after the stream has been moved
+    // Fix the /Filter and /DecodeParms keys for both objects
     // NOTE: Take the values only. In a damaged document
     // they may refer to the object of the stream itself
     auto& lhsDict = m_Parent->GetDictionary();
     auto& rhsDict = rhs.m_Parent->GetDictionary();
     auto filter = rhsDict.FindKey(PdfName::KeyFilter);
+    auto decodeParms = rhsDict.FindKey(DecodeParmsKey);
+    PdfObject newFilter;
+    PdfObject newDecodeParms;
+    if (filter != nullptr)
+        newFilter = PdfObject(filter->GetVariant());
+
+    if (decodeParms != nullptr)
+        newDecodeParms = PdfObject(decodeParms->GetVariant());
+
+    // NOTE: The keys must be consistent with the data if there's a failure. Add
+    // the missing ones with a value with no meaning before moving the data
+    bool filterAdded = filter != nullptr && !lhsDict.HasKey(PdfName::KeyFilter);
+    bool decodeParmsAdded = decodeParms != nullptr && !lhsDict.HasKey(DecodeParmsKey);
+    try
+    {
+        if (filterAdded)
+            lhsDict.AddKey(PdfName::KeyFilter, PdfObject(PdfVariant::Null));
+
+        if (decodeParmsAdded)
+            lhsDict.AddKey(DecodeParmsKey, PdfObject(PdfVariant::Null));
+
+        if (!m_Provider->TryMoveFrom(std::move(*rhs.m_Provider)))
+        {
+            auto stream = rhs.GetInputStream(true);
+            this->SetData(stream, true);
+            m_Provider->Clear();
+        }
+    }
+    catch (...)
+    {
+        if (filterAdded)
+            lhsDict.RemoveKey(PdfName::KeyFilter);
+
+        if (decodeParmsAdded)
+            lhsDict.RemoveKey(DecodeParmsKey);
+
+        throw;
+    }
+
     if (filter == nullptr)
     {
         lhsDict.RemoveKey(PdfName::KeyFilter);
     }
     else
     {
-        lhsDict.AddKey(PdfName::KeyFilter, PdfObject(filter->GetVariant()));
+        auto key = lhsDict.GetKey(PdfName::KeyFilter);
+        if (key == nullptr)
+            lhsDict.AddKey(PdfName::KeyFilter, std::move(newFilter));
+        else
+            *key = std::move(newFilter);
+
         rhsDict.RemoveKey(PdfName::KeyFilter);
     }
 
-    auto decodeParms = rhsDict.FindKey(DecodeParmsKey);
     if (decodeParms == nullptr)
     {
         lhsDict.RemoveKey(DecodeParmsKey);
     }
     else
     {
-        lhsDict.AddKey(DecodeParmsKey, PdfObject(decodeParms->GetVariant()));
+        auto key = lhsDict.GetKey(DecodeParmsKey);
+        if (key == nullptr)
+            lhsDict.AddKey(DecodeParmsKey, std::move(newDecodeParms));
+        else
+            *key = std::move(newDecodeParms);
+
         rhsDict.RemoveKey(DecodeParmsKey);
     }
 
-- 
2.43.0


From e62f3ee6e21ca1ff6c8e5293261b6fd2bee5b654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:39:24 +0000
Subject: [PATCH 124/128] fix: Failing to store the name of a file
 specification was ignored, leaving it truncated

---
 src/pdfmm/base/PdfFileSpec.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pdfmm/base/PdfFileSpec.cpp b/src/pdfmm/base/PdfFileSpec.cpp
index 682df41..557ca7b 100644
--- a/src/pdfmm/base/PdfFileSpec.cpp
+++ b/src/pdfmm/base/PdfFileSpec.cpp
@@ -73,6 +73,8 @@ PdfString PdfFileSpec::CreateFileSpecification(const string_view& filename) cons
     // FIX-ME: The following is not Unicode compliant
 
     outstringstream str;
+    // Don't ignore failures to store what is written
+    str.exceptions(std::ios_base::badbit | std::ios_base::failbit);
     char buff[5];
 
     // Construct a platform independent file specifier
-- 
2.43.0


From ce9246aac8880c79fcf395a780e7aed0535a0033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:33:59 +0000
Subject: [PATCH 125/128] fix: Removing an extension removed the one named "ns"
 instead

---
 src/pdfmm/base/PdfMemDocument.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pdfmm/base/PdfMemDocument.cpp b/src/pdfmm/base/PdfMemDocument.cpp
index 0aed2ae..96e56df 100644
--- a/src/pdfmm/base/PdfMemDocument.cpp
+++ b/src/pdfmm/base/PdfMemDocument.cpp
@@ -228,7 +228,7 @@ vector<PdfExtension> PdfMemDocument::GetPdfExtensions() const
 void PdfMemDocument::RemovePdfExtension(const PdfName& ns, int64_t level)
 {
     if (this->HasPdfExtension(ns, level))
-        this->GetCatalog().GetDictionary().FindKey("Extensions")->GetDictionary().RemoveKey("ns");
+        this->GetCatalog().GetDictionary().FindKey("Extensions")->GetDictionary().RemoveKey(ns);
 }
 
 void PdfMemDocument::Save(const string_view& filename, PdfSaveOptions options)
-- 
2.43.0


From ef15f122cea74222554a318b26e1ce1834816f1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:33:59 +0000
Subject: [PATCH 126/128] fix: Switching to full screen failed unless a page
 mode was set before

---
 src/pdfmm/base/PdfCatalog.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pdfmm/base/PdfCatalog.cpp b/src/pdfmm/base/PdfCatalog.cpp
index 3252f23..3619742 100644
--- a/src/pdfmm/base/PdfCatalog.cpp
+++ b/src/pdfmm/base/PdfCatalog.cpp
@@ -168,8 +168,9 @@ void PdfCatalog::SetUseFullScreen()
     PdfPageMode	curMode = GetPageMode();
 
     // if current mode is anything but "don't care", we need to move that to non-full-screen
-    if (curMode != PdfPageMode::DontCare)
-        setViewerPreference("NonFullScreenPageMode", PdfObject(GetDictionary().MustFindKey("PageMode")));
+    auto pageModeObj = GetDictionary().FindKey("PageMode");
+    if (curMode != PdfPageMode::DontCare && pageModeObj != nullptr)
+        setViewerPreference("NonFullScreenPageMode", PdfObject(*pageModeObj));
 
     SetPageMode(PdfPageMode::FullScreen);
 }
-- 
2.43.0


From 484839493ab84b7326b248530a11f65510b1884e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:35:08 +0000
Subject: [PATCH 127/128] fix: The version set was lost in a full save if an
 update had stored another in the catalog

---
 src/pdfmm/base/PdfMemDocument.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/pdfmm/base/PdfMemDocument.cpp b/src/pdfmm/base/PdfMemDocument.cpp
index 96e56df..2a4ebd6 100644
--- a/src/pdfmm/base/PdfMemDocument.cpp
+++ b/src/pdfmm/base/PdfMemDocument.cpp
@@ -244,6 +244,13 @@ void PdfMemDocument::Save(OutputStreamDevice& device, PdfSaveOptions opts)
 {
     beforeWrite(opts);
 
+    // NOTE: The version in the catalog, if any, overrides the one in the header
+    auto& catalogDict = GetCatalog().GetDictionary();
+    auto versionObj = catalogDict.FindKey("Version");
+    PdfName versionName(mm::GetPdfVersionName(this->GetPdfVersion()));
+    if (versionObj != nullptr && versionObj->IsName() && versionObj->GetName() != versionName)
+        catalogDict.AddKey("Version", versionName);
+
     PdfWriter writer(this->GetObjects(), this->GetTrailer().GetObject());
     writer.SetPdfVersion(this->GetPdfVersion());
     writer.SetSaveOptions(opts);
-- 
2.43.0


From 92da47c27e24ddeeedd8ea17a7814efa4ae31850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:16:22 +0000
Subject: [PATCH 128/128] fix: Collecting garbage destroyed the objects of
 fonts which were still to be embedded

---
 src/pdfmm/base/PdfDocument.cpp           | 11 ++++++++++-
 src/pdfmm/base/PdfIndirectObjectList.cpp |  8 ++++++++
 src/pdfmm/base/PdfIndirectObjectList.h   |  1 +
 3 files changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/pdfmm/base/PdfDocument.cpp b/src/pdfmm/base/PdfDocument.cpp
index 139cfe4..20bab05 100644
--- a/src/pdfmm/base/PdfDocument.cpp
+++ b/src/pdfmm/base/PdfDocument.cpp
@@ -481,7 +481,16 @@ void PdfDocument::fixObjectReferences(PdfObject& obj, int difference)
 
 void PdfDocument::CollectGarbage()
 {
-    m_Objects.CollectGarbage();
+    // NOTE: Fonts not embedded yet still need their objects,
+    // even if nothing refers to them (anymore)
+    vector<const PdfObject*> roots;
+    for (auto& pair : m_FontManager.m_importedFonts)
+    {
+        for (auto font : pair.second)
+            roots.push_back(&font->GetObject());
+    }
+
+    m_Objects.collectGarbage(roots);
 }
 
 PdfOutlines& PdfDocument::GetOrCreateOutlines()
diff --git a/src/pdfmm/base/PdfIndirectObjectList.cpp b/src/pdfmm/base/PdfIndirectObjectList.cpp
index 2aa071a..e501661 100644
--- a/src/pdfmm/base/PdfIndirectObjectList.cpp
+++ b/src/pdfmm/base/PdfIndirectObjectList.cpp
@@ -348,12 +348,20 @@ void PdfIndirectObjectList::pushObject(ObjectList::node_type& node, PdfObject* o
 }
 
 void PdfIndirectObjectList::CollectGarbage()
+{
+    collectGarbage({ });
+}
+
+void PdfIndirectObjectList::collectGarbage(const vector<const PdfObject*>& roots)
 {
     if (m_Document == nullptr)
         return;
 
     unordered_set<PdfReference> referencedOjects;
     visitObject(m_Document->GetTrailer().GetObject(), referencedOjects);
+    for (auto root : roots)
+        visitObject(*root, referencedOjects);
+
     vector<PdfObject*> objectsToDelete;
     ObjectList newlist(CompareObject);
     for (PdfObject* obj : m_Objects)
diff --git a/src/pdfmm/base/PdfIndirectObjectList.h b/src/pdfmm/base/PdfIndirectObjectList.h
index 5ccba27..f0ae731 100644
--- a/src/pdfmm/base/PdfIndirectObjectList.h
+++ b/src/pdfmm/base/PdfIndirectObjectList.h
@@ -328,6 +328,7 @@ private:
 
     int32_t tryAddFreeObject(uint32_t objnum, uint32_t gennum);
 
+    void collectGarbage(const std::vector<const PdfObject*>& roots);
     void visitObject(const PdfObject& obj, std::unordered_set<PdfReference>& referencedObj);
 
 public:
-- 
2.43.0

