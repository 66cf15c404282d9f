From c46a9c2f06a21d0096717e694d84f43dc352ce52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:06:28 +0000
Subject: [PATCH 01/62] fix: accept exactly the RFC 8259 number grammar

Numbers such as 1.2.3, +1, - 1, .5, 1., 1e and 1-2 were accepted, 0e1 was rejected.
---
 Code/Json4C4/C4Json.cpp | 69 +++++++++++++++++++++++++++++------------
 1 file changed, 49 insertions(+), 20 deletions(-)

diff --git a/Code/Json4C4/C4Json.cpp b/Code/Json4C4/C4Json.cpp
index 4181333..35e8a15 100644
--- a/Code/Json4C4/C4Json.cpp
+++ b/Code/Json4C4/C4Json.cpp
@@ -620,17 +620,58 @@ namespace C4
             return int32( reinterpret_cast<const char*>( byte ) - text );
         }
 
+        // Returns the length of the unsigned JSON number at the beginning of the text, or zero if there is none.
         int32 ComputeFloatLiteralLength( const char* text ) noexcept
         {
-            const uint8* byte = reinterpret_cast<const uint8*>( text );
+            const char* c = text;
 
-            while ( byte[ 0 ] != 0 && ( ( byte[ 0 ] >= '0' && byte[ 0 ] <= '9' ) || ( byte[ 0 ] == '.' ) || ( byte[ 0 ] == 'e' ) || ( byte[ 0 ] == 'E' ) ||
-                                        ( byte[ 0 ] == '+' ) || ( byte[ 0 ] == '-' ) ) )
+            auto skipDigits = [ &c ]()
             {
-                byte++;
+                const char* start = c;
+
+                while ( c[ 0 ] >= '0' && c[ 0 ] <= '9' )
+                {
+                    c++;
+                }
+
+                return c != start;
+            };
+
+            if ( c[ 0 ] == '0' )
+            {
+                c++;
+            }
+            else if ( !skipDigits() )
+            {
+                return 0;
             }
 
-            return int32( reinterpret_cast<const char*>( byte ) - text );
+            if ( c[ 0 ] == '.' )
+            {
+                c++;
+
+                if ( !skipDigits() )
+                {
+                    return 0;
+                }
+            }
+
+            if ( c[ 0 ] == 'e' || c[ 0 ] == 'E' )
+            {
+                c++;
+
+                if ( c[ 0 ] == '+' || c[ 0 ] == '-' )
+                {
+                    c++;
+                }
+
+                if ( !skipDigits() )
+                {
+                    return 0;
+                }
+            }
+
+            return int32( c - text );
         }
 
         int32 ReadEscapeChar( const char* text, uint32* value ) noexcept
@@ -812,12 +853,9 @@ namespace C4
                 return ( Status::kFloatInvalid );
             }
 
-            if ( text[ 0 ] == '0' )
+            if ( text[ 0 ] == '0' && text[ 1 ] >= '0' && text[ 1 ] <= '9' )
             {
-                if ( *textLength > 1 && text[ 1 ] != '.' )
-                {
-                    return ( Status::kNumbersCannotHaveLeadingZeros );
-                }
+                return ( Status::kNumbersCannotHaveLeadingZeros );
             }
 
             char* str = new char[ ( *textLength ) + 1 ];
@@ -991,21 +1029,12 @@ namespace C4
 
         bool ParseSign( const char*& text ) noexcept
         {
-            char c = text[ 0 ];
-
-            if ( c == '-' )
+            if ( text[ 0 ] == '-' )
             {
                 text++;
-                text += ComputeWhitespaceLength( text );
                 return ( true );
             }
 
-            if ( c == '+' )
-            {
-                text++;
-                text += ComputeWhitespaceLength( text );
-            }
-
             return ( false );
         }
 
-- 
2.43.0


From 6f89316bc836aa9ad3891c2199fb461ff9a90706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:06:33 +0000
Subject: [PATCH 02/62] fix: accept documents of a single character

A document such as 1 is valid; the size checks required two characters.
---
 Code/Json4C4/C4Json.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Code/Json4C4/C4Json.cpp b/Code/Json4C4/C4Json.cpp
index 35e8a15..e2d5425 100644
--- a/Code/Json4C4/C4Json.cpp
+++ b/Code/Json4C4/C4Json.cpp
@@ -1721,7 +1721,7 @@ namespace C4
 
         Status ParseJsonRoot( Value*& jsonRoot, const Array<char>& nullTerminatedCharArray, int32* errorLine, int32* errorColumn ) noexcept
         {
-            if ( nullTerminatedCharArray.GetArrayElementCount() < 3 )
+            if ( nullTerminatedCharArray.GetArrayElementCount() < 2 )
             {
                 return Status::kTextBufferContentsInvalid;
             }
@@ -1814,7 +1814,7 @@ namespace C4
 
         ParseResult StructuredData::Parse( const Array<char>& nullTerminatedTextBuffer ) noexcept
         {
-            if ( nullTerminatedTextBuffer.GetArrayElementCount() < 3 )
+            if ( nullTerminatedTextBuffer.GetArrayElementCount() < 2 )
             {
                 return ParseResult { Status::kTextBufferContentsInvalid, 0, 0 };
             }
-- 
2.43.0


From aa7ec981aa5a6ac2b00ab3ac8b7fcdeccdb800d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:06:37 +0000
Subject: [PATCH 03/62] fix: accept the DEL character in strings

RFC 8259 excludes only the characters below U+0020 from strings.
---
 Code/Json4C4/C4Json.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Code/Json4C4/C4Json.cpp b/Code/Json4C4/C4Json.cpp
index e2d5425..bf37290 100644
--- a/Code/Json4C4/C4Json.cpp
+++ b/Code/Json4C4/C4Json.cpp
@@ -791,7 +791,7 @@ namespace C4
                     break;
                 }
 
-                if ( ( c < 32U ) || ( c == 127U ) )
+                if ( c < 32U )
                 {
                     return ( Status::kStringIllegalChar );
                 }
-- 
2.43.0


From d7c3dbc544e65c0712ad8893d1d10a24e2921a54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:06:41 +0000
Subject: [PATCH 04/62] fix: reject text that follows an embedded null
 character

Everything after the first null character of the buffer was silently ignored.
---
 Code/Json4C4/C4Json.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Code/Json4C4/C4Json.cpp b/Code/Json4C4/C4Json.cpp
index bf37290..c8e7e34 100644
--- a/Code/Json4C4/C4Json.cpp
+++ b/Code/Json4C4/C4Json.cpp
@@ -1739,7 +1739,7 @@ namespace C4
             Status status = ParseAnyValue( jsonRoot, text );
 
             text += ComputeWhitespaceLength( text );
-            if ( status == Status::kOk && text[ 0 ] != 0 )
+            if ( status == Status::kOk && text != nullTerminatedCharArray.end() - 1 )
             {
                 status = Status::kExpectedEndOfFile;
             }
-- 
2.43.0


From 1e81e7afdbfdf19b45e862051873c5f35ddd9f50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:06:45 +0000
Subject: [PATCH 05/62] fix: count leading whitespace in the reported error
 position

Line breaks and blanks before the first value were left out of the line and column.
---
 Code/Json4C4/C4Json.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/Code/Json4C4/C4Json.cpp b/Code/Json4C4/C4Json.cpp
index c8e7e34..c1cdbc7 100644
--- a/Code/Json4C4/C4Json.cpp
+++ b/Code/Json4C4/C4Json.cpp
@@ -1731,11 +1731,11 @@ namespace C4
                 return Status::kUnterminatedTextBuffer;
             }
 
-            const char* text = &nullTerminatedCharArray[ 0 ];
-            text += ComputeWhitespaceLength( text );
-
+            const char* text  = &nullTerminatedCharArray[ 0 ];
             const char* start = text;
 
+            text += ComputeWhitespaceLength( text );
+
             Status status = ParseAnyValue( jsonRoot, text );
 
             text += ComputeWhitespaceLength( text );
-- 
2.43.0


From 2be56768c15c2f062ec0c0c01e845445031309f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:07:06 +0000
Subject: [PATCH 06/62] fix: combine escaped surrogate pairs into one character

An escaped UTF-16 surrogate pair was stored as two separately encoded surrogates.
---
 Code/Json4C4/C4Json.cpp | 50 +++++++++++++++++++++++++++++------------
 1 file changed, 36 insertions(+), 14 deletions(-)

diff --git a/Code/Json4C4/C4Json.cpp b/Code/Json4C4/C4Json.cpp
index c1cdbc7..8dd04d0 100644
--- a/Code/Json4C4/C4Json.cpp
+++ b/Code/Json4C4/C4Json.cpp
@@ -713,6 +713,28 @@ namespace C4
             return ( 0 );
         }
 
+        bool ReadHexadecimalCode( const uint8* byte, uint32* code ) noexcept
+        {
+            for ( machine a = 0; a < 4; a++ )
+            {
+                uint32 c = byte[ a ] - '0';
+                if ( c >= 55U )
+                {
+                    return ( false );
+                }
+
+                int32 x = hexadecimalCharValue[ c ];
+                if ( x < 0 )
+                {
+                    return ( false );
+                }
+
+                *code = ( *code << 4 ) | x;
+            }
+
+            return ( true );
+        }
+
         int32 ReadStringEscapeChar( const char* text, int32* stringLength, char* restrict string ) noexcept
         {
             const uint8* byte = reinterpret_cast<const uint8*>( text );
@@ -720,23 +742,23 @@ namespace C4
 
             if ( c == 'u' )
             {
-                uint32 code = 0;
+                uint32 code       = 0;
+                int32  textLength = 5;
 
-                for ( machine a = 1; a <= 4; a++ )
+                if ( !ReadHexadecimalCode( byte + 1, &code ) )
                 {
-                    c = byte[ a ] - '0';
-                    if ( c >= 55U )
-                    {
-                        return ( 0 );
-                    }
+                    return ( 0 );
+                }
 
-                    int32 x = hexadecimalCharValue[ c ];
-                    if ( x < 0 )
+                if ( code - 0xD800U < 0x0400U && byte[ 5 ] == '\\' && byte[ 6 ] == 'u' )
+                {
+                    uint32 lowSurrogate = 0;
+
+                    if ( ReadHexadecimalCode( byte + 7, &lowSurrogate ) && lowSurrogate - 0xDC00U < 0x0400U )
                     {
-                        return ( 0 );
+                        code       = 0x010000 + ( ( code - 0xD800U ) << 10 ) + ( lowSurrogate - 0xDC00U );
+                        textLength = 11;
                     }
-
-                    code = ( code << 4 ) | x;
                 }
 
                 if ( code != 0 )
@@ -747,10 +769,10 @@ namespace C4
                     }
                     else
                     {
-                        *stringLength = 1 + ( code >= 0x000080 ) + ( code >= 0x000800 );
+                        *stringLength = 1 + ( code >= 0x000080 ) + ( code >= 0x000800 ) + ( code >= 0x010000 );
                     }
 
-                    return ( 5 );
+                    return ( textLength );
                 }
             }
             else
-- 
2.43.0


From eb7adc9db80ab4cfe11693041c72996536058641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:08:30 +0000
Subject: [PATCH 07/62] fix: report the error position where parsing failed

Whitespace after the point of failure was skipped first, so that an error could be reported on a later line.
---
 Code/Json4C4/C4Json.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/Code/Json4C4/C4Json.cpp b/Code/Json4C4/C4Json.cpp
index 8dd04d0..1948cf5 100644
--- a/Code/Json4C4/C4Json.cpp
+++ b/Code/Json4C4/C4Json.cpp
@@ -1760,10 +1760,14 @@ namespace C4
 
             Status status = ParseAnyValue( jsonRoot, text );
 
-            text += ComputeWhitespaceLength( text );
-            if ( status == Status::kOk && text != nullTerminatedCharArray.end() - 1 )
+            if ( status == Status::kOk )
             {
-                status = Status::kExpectedEndOfFile;
+                text += ComputeWhitespaceLength( text );
+
+                if ( text != nullTerminatedCharArray.end() - 1 )
+                {
+                    status = Status::kExpectedEndOfFile;
+                }
             }
 
             if ( status != Status::kOk )
-- 
2.43.0


From 46d927c1717da5e4aa0bb24fcc706ad6d3e6ad39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:09:28 +0000
Subject: [PATCH 08/62] fix: truncate an existing file when writing

Writing a shorter document over an existing file left the end of the old contents in place.
---
 Code/Json4C4/C4Json.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Code/Json4C4/C4Json.cpp b/Code/Json4C4/C4Json.cpp
index 1948cf5..a45be47 100644
--- a/Code/Json4C4/C4Json.cpp
+++ b/Code/Json4C4/C4Json.cpp
@@ -269,7 +269,7 @@ namespace C4
                 return kFileOkay;
             }
 
-            int fd = open( fileName, O_WRONLY | O_CREAT, 0644 );
+            int fd = open( fileName, O_WRONLY | O_CREAT | O_TRUNC, 0644 );
 
             if ( fd == -1 )
             {
-- 
2.43.0


From 2a51f7385e1bb71ee367d6ed1be2126cd72fbb74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:09:32 +0000
Subject: [PATCH 09/62] fix: handle short reads and early end of file

Every read stored at the start of the buffer, and a file that shrank while it was read made the loop spin forever.
---
 Code/Json4C4/C4Json.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/Code/Json4C4/C4Json.cpp b/Code/Json4C4/C4Json.cpp
index a45be47..72a8621 100644
--- a/Code/Json4C4/C4Json.cpp
+++ b/Code/Json4C4/C4Json.cpp
@@ -400,9 +400,10 @@ namespace C4
 
             while ( p != end )
             {
-                int numberOfBytesRead = read( this->fileDescriptor, buffer, end - p );
+                int numberOfBytesRead = read( this->fileDescriptor, p, end - p );
 
-                if ( numberOfBytesRead == -1 )
+                // Zero means that the file ends before the requested number of bytes
+                if ( numberOfBytesRead <= 0 )
                 {
                     return kFileReadError;
                 }
-- 
2.43.0


From e040734e30fd0ddca3187a315414bc094b810a6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:09:37 +0000
Subject: [PATCH 10/62] fix: escape strings and names when writing

Quotation marks, backslashes and control characters were written as they are, which produced invalid or different JSON.
---
 Code/Json4C4/C4Json.cpp | 37 +++++++++++++++++++++++++++++++++++--
 1 file changed, 35 insertions(+), 2 deletions(-)

diff --git a/Code/Json4C4/C4Json.cpp b/Code/Json4C4/C4Json.cpp
index 72a8621..364d869 100644
--- a/Code/Json4C4/C4Json.cpp
+++ b/Code/Json4C4/C4Json.cpp
@@ -1137,6 +1137,38 @@ namespace C4
             return Status::kExpectedJsonValue;
         }
 
+        void WriteStringLiteral( File& file, const char* text )
+        {
+            static const char hexadecimalDigit[] = "0123456789ABCDEF";
+
+            const char* start = text;
+
+            file << '"';
+
+            for ( ; text[ 0 ] != 0; text++ )
+            {
+                const uint8 c = uint8( text[ 0 ] );
+
+                if ( c < 32U || c == '"' || c == '\\' )
+                {
+                    file.WriteFile( start, text - start );
+                    start = text + 1;
+
+                    if ( c < 32U )
+                    {
+                        file << "\\u00" << hexadecimalDigit[ c >> 4 ] << hexadecimalDigit[ c & 15 ];
+                    }
+                    else
+                    {
+                        file << '\\' << char( c );
+                    }
+                }
+            }
+
+            file.WriteFile( start, text - start );
+            file << '"';
+        }
+
         class StringValue final : public Value
         {
         public:
@@ -1205,7 +1237,7 @@ namespace C4
 
             Status Write( File& file, uint32 /*indentationLength*/, const char /*indentationChar*/, Array<char>& /*indentationCharArray*/ ) const override
             {
-                file << '\"' << data << '\"';
+                WriteStringLiteral( file, data );
 
                 return Status::kOk;
             }
@@ -1723,7 +1755,8 @@ namespace C4
 
                 file.WriteFile( indentationCharArray.begin(), indentationCharArray.GetArrayElementCount() );
 
-                file << '"' << value->name << "\" : ";
+                WriteStringLiteral( file, value->name );
+                file << " : ";
 
                 Status status = value->Write( file, indentationLength, indentationChar, indentationCharArray );
                 if ( status != Status::kOk )
-- 
2.43.0


From 0800f46367083bb415c399b56e7d85360d20a6a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:10:01 +0000
Subject: [PATCH 11/62] fix: do not write infinities and NaN as bare words

They have no JSON representation; the file written could not be parsed again.
---
 Code/Json4C4/C4Json.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/Code/Json4C4/C4Json.cpp b/Code/Json4C4/C4Json.cpp
index 364d869..6afc862 100644
--- a/Code/Json4C4/C4Json.cpp
+++ b/Code/Json4C4/C4Json.cpp
@@ -1295,6 +1295,12 @@ namespace C4
             Status Write( File& file, uint32 /*indentationLength*/, const char /*indentationChar*/, Array<char>& /*indentationCharArray*/ ) const override
             {
 
+                // JSON has no representation for infinities and NaN
+                if ( !( data - data == 0.0 ) )
+                {
+                    return Status::kFloatInvalid;
+                }
+
 #ifdef JSON4C4_USE_SYSTEM_DOUBLE_STRING_CONVERSIONS
 
                 constexpr int maxDoubleDigits = 32;
-- 
2.43.0


From 8002f354e8e4126f84a65ddbc0ccf557040bcf40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:10:32 +0000
Subject: [PATCH 12/62] fix: give every status its own message

The message for a file that is too large was missing, so all later statuses had the message of their neighbour and the last one read past the table.
---
 Code/Json4C4/C4Json.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Code/Json4C4/C4Json.cpp b/Code/Json4C4/C4Json.cpp
index 6afc862..2f80142 100644
--- a/Code/Json4C4/C4Json.cpp
+++ b/Code/Json4C4/C4Json.cpp
@@ -503,6 +503,7 @@ namespace C4
         static const char* const StatusString[] = { "Ok",
                                                     "Could not open file",
                                                     "Could not read file",
+                                                    "File is too large",
                                                     "Invalid JSON text",
                                                     "Unterminated text buffer",
                                                     "Expected opening curly braces",
-- 
2.43.0


From 570c5f65d63563b4a4d3ecc2ea496621fa76bc08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:10:35 +0000
Subject: [PATCH 13/62] fix: do not touch the file when there is nothing to
 write

Writing an empty structure created or emptied the file before it reported the error.
---
 Code/Json4C4/C4Json.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/Code/Json4C4/C4Json.cpp b/Code/Json4C4/C4Json.cpp
index 2f80142..ddc4c96 100644
--- a/Code/Json4C4/C4Json.cpp
+++ b/Code/Json4C4/C4Json.cpp
@@ -1906,6 +1906,11 @@ namespace C4
         TERATHON_API Status StructuredData::Write( const char* fileName, const uint32 indentationLength, const char indentationChar ) noexcept
         {
 
+            if ( !rootJsonValue )
+            {
+                return Status::kInvalidStructuredData;
+            }
+
             File file;
             if ( file.OpenFile( fileName, kFileCreate ) != kFileOkay )
             {
@@ -1914,16 +1919,11 @@ namespace C4
 
             Array<char> indentCharArray;
 
-            if ( rootJsonValue )
-            {
-                Status status = rootJsonValue->Write( file, indentationLength, indentationChar, indentCharArray );
-
-                file.CloseFile();
+            Status status = rootJsonValue->Write( file, indentationLength, indentationChar, indentCharArray );
 
-                return status;
-            }
+            file.CloseFile();
 
-            return Status::kInvalidStructuredData;
+            return status;
         }
 
         const Value* StructuredData::GetRootJsonValue() const noexcept
-- 
2.43.0


From 86644c10e30e1ee11bc1a256d0883817985e6685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:10:39 +0000
Subject: [PATCH 14/62] fix: report an allocation failure while writing instead
 of terminating

---
 Code/Json4C4/C4Json.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Code/Json4C4/C4Json.cpp b/Code/Json4C4/C4Json.cpp
index ddc4c96..cc25b65 100644
--- a/Code/Json4C4/C4Json.cpp
+++ b/Code/Json4C4/C4Json.cpp
@@ -1919,7 +1919,7 @@ namespace C4
 
             Array<char> indentCharArray;
 
-            Status status = rootJsonValue->Write( file, indentationLength, indentationChar, indentCharArray );
+            Status status = MayThrow( [ & ]() { return rootJsonValue->Write( file, indentationLength, indentationChar, indentCharArray ); } );
 
             file.CloseFile();
 
-- 
2.43.0


From 8d6cace78f08d7537c7bc4273b2eebedd5d85667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:10:43 +0000
Subject: [PATCH 15/62] fix: report failed writes

Errors of the underlying writes were dropped and an incomplete file was reported as written.
---
 Code/Json4C4/C4Json.cpp | 37 +++++++++++++++++++++++++++++++++++--
 Code/Json4C4/C4Json.h   |  3 ++-
 2 files changed, 37 insertions(+), 3 deletions(-)

diff --git a/Code/Json4C4/C4Json.cpp b/Code/Json4C4/C4Json.cpp
index cc25b65..614412b 100644
--- a/Code/Json4C4/C4Json.cpp
+++ b/Code/Json4C4/C4Json.cpp
@@ -199,7 +199,8 @@ namespace C4
     class File
     {
     private:
-        bool IsReadOnly = false;
+        bool IsReadOnly  = false;
+        bool writeFailed = false;
 
 #    if defined( JSON4C4_WINDOWS )
 
@@ -221,6 +222,8 @@ namespace C4
         {
             CloseFile();
 
+            writeFailed = false;
+
 #    if defined( JSON4C4_WINDOWS )
 
             const WCharBuffer wideFileName( Terathon::String<> { fileName } );
@@ -416,7 +419,26 @@ namespace C4
             return kFileOkay;
         }
 
+        // True if any write since the file was opened has failed
+        bool HasWriteFailed() const
+        {
+            return writeFailed;
+        }
+
         FileStatus WriteFile( const char* buffer, Terathon::uint64 size )
+        {
+            FileStatus status = WriteBytes( buffer, size );
+
+            if ( status != kFileOkay )
+            {
+                writeFailed = true;
+            }
+
+            return status;
+        }
+
+    private:
+        FileStatus WriteBytes( const char* buffer, Terathon::uint64 size )
         {
             if ( IsReadOnly )
             {
@@ -476,6 +498,7 @@ namespace C4
             return kFileOkay;
         }
 
+    public:
         File& operator<<( char c )
         {
             this->WriteFile( &c, 1 );
@@ -526,7 +549,8 @@ namespace C4
                                                     "An expected object value pair was not found",
                                                     "An exception was caught",
                                                     "JSON structured data contains invalid value type",
-                                                    "Could not find requested name of name/value pair" };
+                                                    "Could not find requested name of name/value pair",
+                                                    "Could not write file" };
 
         TERATHON_API String<256> StatusToString( const Status& status ) noexcept
         {
@@ -1921,6 +1945,15 @@ namespace C4
 
             Status status = MayThrow( [ & ]() { return rootJsonValue->Write( file, indentationLength, indentationChar, indentCharArray ); } );
 
+#ifndef C4_ENGINE_MODULE
+
+            if ( status == Status::kOk && file.HasWriteFailed() )
+            {
+                status = Status::KFileWriteError;
+            }
+
+#endif
+
             file.CloseFile();
 
             return status;
diff --git a/Code/Json4C4/C4Json.h b/Code/Json4C4/C4Json.h
index 6d6f4c6..4b11607 100644
--- a/Code/Json4C4/C4Json.h
+++ b/Code/Json4C4/C4Json.h
@@ -156,7 +156,8 @@ namespace C4
             kMissingObjectElement,
             kException,
             kInvalidValueType,
-            kNameNotPresent
+            kNameNotPresent,
+            KFileWriteError
         };
 
         TERATHON_API String<256> StatusToString( const Status& parseResult ) noexcept;
-- 
2.43.0


From 4a9b633f757b00deb940582a368ba3611d162214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:11:19 +0000
Subject: [PATCH 16/62] fix: drop the tree of a text that is rejected

A value followed by other text is an error, but its tree stayed accessible.
---
 Code/Json4C4/C4Json.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/Code/Json4C4/C4Json.cpp b/Code/Json4C4/C4Json.cpp
index 614412b..e4f460e 100644
--- a/Code/Json4C4/C4Json.cpp
+++ b/Code/Json4C4/C4Json.cpp
@@ -1837,6 +1837,9 @@ namespace C4
 
             if ( status != Status::kOk )
             {
+                delete jsonRoot;
+                jsonRoot = nullptr;
+
                 *errorLine   = 1;
                 *errorColumn = 1;
 
-- 
2.43.0


From a26c10a4d42285f1350acd6302d83dfd7780fbd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:11:23 +0000
Subject: [PATCH 17/62] fix: handle repeated names in an object

The value of a repeated name was leaked and the first one was written twice.
---
 Code/Json4C4/C4Json.cpp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/Code/Json4C4/C4Json.cpp b/Code/Json4C4/C4Json.cpp
index e4f460e..90c21fd 100644
--- a/Code/Json4C4/C4Json.cpp
+++ b/Code/Json4C4/C4Json.cpp
@@ -1588,7 +1588,13 @@ namespace C4
         {
             insertionOrder.AppendArrayElement( element->name );
 
-            return this->InsertMapElement( element );
+            if ( !this->InsertMapElement( element ) )
+            {
+                insertionOrder.SetArrayElementCount( insertionOrder.GetArrayElementCount() - 1 );
+                return false;
+            }
+
+            return true;
         }
 
         Status ObjectValue::Parse( ObjectValue* jsonObject, const char*& text ) noexcept
@@ -1646,7 +1652,12 @@ namespace C4
                     [ & ]()
                     {
                         jsonValue->name = name.data;
-                        jsonObject->InsertAccountedMapElement( jsonValue );
+
+                        if ( !jsonObject->InsertAccountedMapElement( jsonValue ) )
+                        {
+                            // The name is already present
+                            delete jsonValue;
+                        }
 
                         return Status::kOk;
                     } );
-- 
2.43.0


From d7aae308805a1c370bb236b50b2fe1f7ca403283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:16 +0000
Subject: [PATCH 18/62] fix: update the root when the root element of a map is
 replaced

---
 Code/Terathon/TSMap.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/Code/Terathon/TSMap.cpp b/Code/Terathon/TSMap.cpp
index 8c1fcba..b424f3a 100644
--- a/Code/Terathon/TSMap.cpp
+++ b/Code/Terathon/TSMap.cpp
@@ -571,6 +571,10 @@ void MapBase::ReplaceMapElement(MapElementBase *element, MapElementBase *replace
 			super->rightSubnode = replacement;
 		}
 	}
+	else
+	{
+		rootElement = replacement;
+	}
 
 	replacement->superNode = super;
 	replacement->balance = element->balance;
-- 
2.43.0


From b58142dccb344cbf0557d768b2e07d3dd291507f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:33:00 +0000
Subject: [PATCH 19/62] fix: serialize std::vector as an array

---
 Code/Json4C4/C4Json.h | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/Code/Json4C4/C4Json.h b/Code/Json4C4/C4Json.h
index 4b11607..e34581c 100644
--- a/Code/Json4C4/C4Json.h
+++ b/Code/Json4C4/C4Json.h
@@ -534,6 +534,16 @@ namespace C4
                 return new ArrayValue;
             }
 
+#ifdef JSON4C4_ENABLE_STD_SUPPORT_INTERNAL
+
+            template <class T>
+            Value* CreateValueFor( const std::vector<T>& ) noexcept( false )
+            {
+                return new ArrayValue;
+            }
+
+#endif
+
             template <>
             TERATHON_API Value* CreateValueFor( const String<>& ) noexcept( false );
 
-- 
2.43.0


From 26e7956f47a51676e0580a906253ac4e5146bc08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:33:05 +0000
Subject: [PATCH 20/62] fix: deserialize std::vector of types with member
 functions

---
 Code/Json4C4/C4Json.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Code/Json4C4/C4Json.h b/Code/Json4C4/C4Json.h
index e34581c..687b9b6 100644
--- a/Code/Json4C4/C4Json.h
+++ b/Code/Json4C4/C4Json.h
@@ -1194,7 +1194,7 @@ namespace C4
 
                         if constexpr ( Detail::HasDeserializeMember<T>::Value )
                         {
-                            status = temp->Deserialize( value );
+                            status = temp.Deserialize( value );
                         }
                         else
                         {
-- 
2.43.0


From e2106bf90eacf8e6fa716272477cb63fd3f1b60b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:33:09 +0000
Subject: [PATCH 21/62] fix: write the members of serialized maps

---
 Code/Json4C4/C4Json.cpp | 12 ++++++++++++
 Code/Json4C4/C4Json.h   | 13 ++++++++-----
 2 files changed, 20 insertions(+), 5 deletions(-)

diff --git a/Code/Json4C4/C4Json.cpp b/Code/Json4C4/C4Json.cpp
index 90c21fd..2743db4 100644
--- a/Code/Json4C4/C4Json.cpp
+++ b/Code/Json4C4/C4Json.cpp
@@ -1597,6 +1597,18 @@ namespace C4
             return true;
         }
 
+        void ObjectValue::RemoveAllMapElements() noexcept
+        {
+            Map<Value>::RemoveAllMapElements();
+            insertionOrder.PurgeArray();
+        }
+
+        void ObjectValue::PurgeMap() noexcept
+        {
+            Map<Value>::PurgeMap();
+            insertionOrder.PurgeArray();
+        }
+
         Status ObjectValue::Parse( ObjectValue* jsonObject, const char*& text ) noexcept
         {
             if ( text[ 0 ] != '{' )
diff --git a/Code/Json4C4/C4Json.h b/Code/Json4C4/C4Json.h
index 687b9b6..1f6bf29 100644
--- a/Code/Json4C4/C4Json.h
+++ b/Code/Json4C4/C4Json.h
@@ -494,7 +494,6 @@ namespace C4
             Array<String<>> insertionOrder;
 
         public:
-            using Map<Value>::RemoveAllMapElements;
             using Map<Value>::begin;
             using Map<Value>::end;
 
@@ -516,6 +515,10 @@ namespace C4
 
             TERATHON_API bool InsertAccountedMapElement( Value* element );
 
+            // Remove (and delete, in the case of PurgeMap) all members together with their insertion order
+            TERATHON_API void RemoveAllMapElements() noexcept;
+            TERATHON_API void PurgeMap() noexcept;
+
             TERATHON_API Status Write( File& file, uint32 indentationLength, const char indentationChar, Array<char>& indentationCharArray ) const override;
         };
 
@@ -1080,7 +1083,7 @@ namespace C4
             return MayThrow(
                 [ & ]()
                 {
-                    objectValue->RemoveAllMapElements();
+                    objectValue->PurgeMap();
 
                     T      temp;
                     Status status;
@@ -1105,7 +1108,7 @@ namespace C4
                             return status;
                         }
 
-                        objectValue->InsertMapElement( elem );
+                        objectValue->InsertAccountedMapElement( elem );
                     }
                     return Status::kOk;
                 } );
@@ -1356,7 +1359,7 @@ namespace C4
             return MayThrow(
                 [ & ]()
                 {
-                    objectValue->RemoveAllMapElements();
+                    objectValue->PurgeMap();
 
                     T      temp;
                     Status status;
@@ -1381,7 +1384,7 @@ namespace C4
                             return status;
                         }
 
-                        objectValue->InsertMapElement( elem );
+                        objectValue->InsertAccountedMapElement( elem );
                     }
 
                     return Status::kOk;
-- 
2.43.0


From d38456634a3d5de4e997e766190f77a2a9d94d41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:33:32 +0000
Subject: [PATCH 22/62] fix: report and complete the serialization of named
 members

---
 Code/Json4C4/C4Json.h | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/Code/Json4C4/C4Json.h b/Code/Json4C4/C4Json.h
index 1f6bf29..d571869 100644
--- a/Code/Json4C4/C4Json.h
+++ b/Code/Json4C4/C4Json.h
@@ -709,11 +709,16 @@ namespace C4
                     {
                         associateValue       = Detail::CreateValueFor( data );
                         associateValue->name = name;
-                        Serialize( associateValue, data );
 
-                        objectValue->InsertAccountedMapElement( associateValue );
+                        Status status = Serialize( associateValue, data );
 
-                        return Status::kOk;
+                        if ( status == Status::kOk && !objectValue->InsertAccountedMapElement( associateValue ) )
+                        {
+                            // The name is already present
+                            delete objectValue->InsertReplaceMapElement( associateValue );
+                        }
+
+                        return status;
                     } );
 
                 if ( status != Status::kOk )
-- 
2.43.0


From bf9afa2f7e3cf59c789fc92483f096fcc2bae612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:37:21 +0000
Subject: [PATCH 23/62] fix: refuse to validate or deserialize an empty
 document

---
 Code/Json4C4/C4Json.h | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/Code/Json4C4/C4Json.h b/Code/Json4C4/C4Json.h
index d571869..aed9556 100644
--- a/Code/Json4C4/C4Json.h
+++ b/Code/Json4C4/C4Json.h
@@ -586,6 +586,11 @@ namespace C4
             template <class T>
             Status DeserializeTo( T& data ) noexcept
             {
+                if ( rootJsonValue == nullptr )
+                {
+                    return Status::kInvalidStructuredData;
+                }
+
                 return MayThrow(
                     [ & ]()
                     {
@@ -638,6 +643,11 @@ namespace C4
         template <class T>
         Status Validate( const StructuredData& sd, const T& data ) noexcept
         {
+            if ( sd.GetRootJsonValue() == nullptr )
+            {
+                return Status::kInvalidStructuredData;
+            }
+
             return MayThrow(
                 [ & ]()
                 {
-- 
2.43.0


From a2a463faaf4216c8ef7aea39f86aec1dc20f57cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:37:58 +0000
Subject: [PATCH 24/62] fix: report names missing inside a present optional
 value

---
 Code/Json4C4/C4Json.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/Code/Json4C4/C4Json.h b/Code/Json4C4/C4Json.h
index aed9556..d801e5c 100644
--- a/Code/Json4C4/C4Json.h
+++ b/Code/Json4C4/C4Json.h
@@ -1444,7 +1444,8 @@ namespace C4
         {
             Status status = Validate( value, name, data );
 
-            if ( status != Status::kOk && status != Status::kNameNotPresent )
+            // A name that is not present in a value that is present is still an error
+            if ( status != Status::kOk && ( status != Status::kNameNotPresent || value->AsJsonObjectValue()->FindMapElement( name ) != nullptr ) )
             {
                 return status;
             }
@@ -1488,7 +1489,8 @@ namespace C4
         {
             Status status = Deserialize( value, name, data );
 
-            if ( status != Status::kOk && status != Status::kNameNotPresent )
+            // A name that is not present in a value that is present is still an error
+            if ( status != Status::kOk && ( status != Status::kNameNotPresent || value->AsJsonObjectValue()->FindMapElement( name ) != nullptr ) )
             {
                 return status;
             }
-- 
2.43.0


From 2a12b71430fb30dda4774404fca14bffde37e45b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:42:23 +0000
Subject: [PATCH 25/62] fix: report a failed allocation while parsing a number,
 boolean or null

---
 Code/Json4C4/C4Json.cpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/Code/Json4C4/C4Json.cpp b/Code/Json4C4/C4Json.cpp
index 2743db4..7f54b97 100644
--- a/Code/Json4C4/C4Json.cpp
+++ b/Code/Json4C4/C4Json.cpp
@@ -1129,21 +1129,23 @@ namespace C4
             text = start;
 
             status = ParseValue<NumberValue>( value, text );
-            if ( status == Status::kOk || status == Status::kNumbersCannotHaveLeadingZeros )
+            if ( status == Status::kOk || status == Status::kNumbersCannotHaveLeadingZeros || status == Status::kException )
             {
                 return status;
             }
             text = start;
 
-            if ( ParseValue<BoolValue>( value, text ) == Status::kOk )
+            status = ParseValue<BoolValue>( value, text );
+            if ( status == Status::kOk || status == Status::kException )
             {
-                return Status::kOk;
+                return status;
             }
             text = start;
 
-            if ( ParseValue<NullValue>( value, text ) == Status::kOk )
+            status = ParseValue<NullValue>( value, text );
+            if ( status == Status::kOk || status == Status::kException )
             {
-                return Status::kOk;
+                return status;
             }
             text = start;
 
-- 
2.43.0


From a07689277d24711c686975713d9a9ffc025ae31c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:42:26 +0000
Subject: [PATCH 26/62] fix: release a parsed value that cannot be stored

---
 Code/Json4C4/C4Json.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Code/Json4C4/C4Json.cpp b/Code/Json4C4/C4Json.cpp
index 7f54b97..5240954 100644
--- a/Code/Json4C4/C4Json.cpp
+++ b/Code/Json4C4/C4Json.cpp
@@ -1513,6 +1513,7 @@ namespace C4
 
                 if ( status != Status::kOk )
                 {
+                    delete jsonValue;
                     return status;
                 }
 
@@ -1678,6 +1679,7 @@ namespace C4
 
                 if ( status != Status::kOk )
                 {
+                    delete jsonValue;
                     return status;
                 }
 
-- 
2.43.0


From 23ab4fb7a06c9ad86ae64aab90bdeff30b3afd16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:43:25 +0000
Subject: [PATCH 27/62] fix: keep a string as it is when its memory cannot be
 allocated

---
 Code/Terathon/TSString.cpp | 62 +++++++++++++++++++++++---------------
 1 file changed, 38 insertions(+), 24 deletions(-)

diff --git a/Code/Terathon/TSString.cpp b/Code/Terathon/TSString.cpp
index 6bf3912..ef5b897 100644
--- a/Code/Terathon/TSString.cpp
+++ b/Code/Terathon/TSString.cpp
@@ -294,18 +294,20 @@ void String<0>::PurgeString(void)
 
 void String<0>::Resize(int32 size)
 {
-	logicalSize = size;
 	if (size > kStringLocalSize)
 	{
 		if ((size > physicalSize) || (size < physicalSize / 2))
 		{
+			int32 newSize = GetPhysicalSize(size);
+			char *newPointer = new char[newSize];
+
 			if (stringPointer != localString)
 			{
 				delete[] stringPointer;
 			}
 
-			physicalSize = GetPhysicalSize(size);
-			stringPointer = new char[physicalSize];
+			physicalSize = newSize;
+			stringPointer = newPointer;
 		}
 	}
 	else
@@ -318,6 +320,8 @@ void String<0>::Resize(int32 size)
 		physicalSize = kStringLocalSize;
 		stringPointer = localString;
 	}
+
+	logicalSize = size;
 }
 
 String<0>& String<0>::Set(const char *s, int32 length)
@@ -443,8 +447,9 @@ String<0>& String<0>::operator +=(const String<>& s)
 		int32 size = logicalSize + length;
 		if (size > physicalSize)
 		{
-			physicalSize = Max(GetPhysicalSize(size), physicalSize + physicalSize / 2);
-			char *newPointer = new char[physicalSize];
+			int32 newSize = Max(GetPhysicalSize(size), physicalSize + physicalSize / 2);
+			char *newPointer = new char[newSize];
+			physicalSize = newSize;
 			Text::CopyText(stringPointer, newPointer);
 
 			if (stringPointer != localString)
@@ -470,8 +475,9 @@ String<0>& String<0>::operator +=(const char *s)
 		int32 size = logicalSize + length;
 		if (size > physicalSize)
 		{
-			physicalSize = Max(GetPhysicalSize(size), physicalSize + physicalSize / 2);
-			char *newPointer = new char[physicalSize];
+			int32 newSize = Max(GetPhysicalSize(size), physicalSize + physicalSize / 2);
+			char *newPointer = new char[newSize];
+			physicalSize = newSize;
 			Text::CopyText(stringPointer, newPointer);
 
 			if (stringPointer != localString)
@@ -494,8 +500,9 @@ String<0>& String<0>::operator +=(char k)
 	int32 size = logicalSize + 1;
 	if (size > physicalSize)
 	{
-		physicalSize = Max(GetPhysicalSize(size), physicalSize + physicalSize / 2);
-		char *newPointer = new char[physicalSize];
+		int32 newSize = Max(GetPhysicalSize(size), physicalSize + physicalSize / 2);
+		char *newPointer = new char[newSize];
+		physicalSize = newSize;
 		Text::CopyText(stringPointer, newPointer);
 
 		if (stringPointer != localString)
@@ -517,8 +524,9 @@ String<0>& String<0>::operator +=(int32 n)
 	int32 size = logicalSize + kStringAllocSize;
 	if (size > physicalSize)
 	{
-		physicalSize = Max(GetPhysicalSize(size), physicalSize + physicalSize / 2);
-		char *newPointer = new char[physicalSize];
+		int32 newSize = Max(GetPhysicalSize(size), physicalSize + physicalSize / 2);
+		char *newPointer = new char[newSize];
+		physicalSize = newSize;
 		Text::CopyText(stringPointer, newPointer);
 
 		if (stringPointer != localString)
@@ -538,8 +546,9 @@ String<0>& String<0>::operator +=(uint32 n)
 	int32 size = logicalSize + kStringAllocSize;
 	if (size > physicalSize)
 	{
-		physicalSize = Max(GetPhysicalSize(size), physicalSize + physicalSize / 2);
-		char *newPointer = new char[physicalSize];
+		int32 newSize = Max(GetPhysicalSize(size), physicalSize + physicalSize / 2);
+		char *newPointer = new char[newSize];
+		physicalSize = newSize;
 		Text::CopyText(stringPointer, newPointer);
 
 		if (stringPointer != localString)
@@ -559,8 +568,9 @@ String<0>& String<0>::operator +=(int64 n)
 	int32 size = logicalSize + kStringAllocSize;
 	if (size > physicalSize)
 	{
-		physicalSize = Max(GetPhysicalSize(size), physicalSize + physicalSize / 2);
-		char *newPointer = new char[physicalSize];
+		int32 newSize = Max(GetPhysicalSize(size), physicalSize + physicalSize / 2);
+		char *newPointer = new char[newSize];
+		physicalSize = newSize;
 		Text::CopyText(stringPointer, newPointer);
 
 		if (stringPointer != localString)
@@ -580,8 +590,9 @@ String<0>& String<0>::operator +=(uint64 n)
 	int32 size = logicalSize + kStringAllocSize;
 	if (size > physicalSize)
 	{
-		physicalSize = Max(GetPhysicalSize(size), physicalSize + physicalSize / 2);
-		char *newPointer = new char[physicalSize];
+		int32 newSize = Max(GetPhysicalSize(size), physicalSize + physicalSize / 2);
+		char *newPointer = new char[newSize];
+		physicalSize = newSize;
 		Text::CopyText(stringPointer, newPointer);
 
 		if (stringPointer != localString)
@@ -611,14 +622,14 @@ String<0>& String<0>::SetStringLength(int32 length)
 		if (size != logicalSize)
 		{
 			int32 copyLength = Min(length, logicalSize - 1);
-			logicalSize = size;
 
 			if (size > kStringLocalSize)
 			{
 				if ((size > physicalSize) || (size < physicalSize / 2))
 				{
-					physicalSize = GetPhysicalSize(size);
-					char *newPointer = new char[physicalSize];
+					int32 newSize = GetPhysicalSize(size);
+					char *newPointer = new char[newSize];
+					physicalSize = newSize;
 					Text::CopyText(stringPointer, newPointer, copyLength);
 
 					if (stringPointer != localString)
@@ -636,6 +647,7 @@ String<0>& String<0>::SetStringLength(int32 length)
 				stringPointer = localString;
 			}
 
+			logicalSize = size;
 			stringPointer[length] = 0;
 		}
 	}
@@ -659,8 +671,9 @@ String<0>& String<0>::AppendString(const char *s, int32 length)
 		int32 size = logicalSize + length;
 		if (size > physicalSize)
 		{
-			physicalSize = Max(GetPhysicalSize(size), physicalSize + physicalSize / 2);
-			char *newPointer = new char[physicalSize];
+			int32 newSize = Max(GetPhysicalSize(size), physicalSize + physicalSize / 2);
+			char *newPointer = new char[newSize];
+			physicalSize = newSize;
 			Text::CopyText(stringPointer, newPointer);
 
 			if (stringPointer != localString)
@@ -783,9 +796,10 @@ String<0>& String<0>::EncodeEscapeSequences(void)
 
 	if (maxCharSize > 1)
 	{
+		int32 newSize = GetPhysicalSize(encodedLength);
+		char *encodedString = new char[newSize];
 		logicalSize = encodedLength;
-		physicalSize = GetPhysicalSize(encodedLength);
-		char *encodedString = new char[physicalSize];
+		physicalSize = newSize;
 
 		byte = reinterpret_cast<uint8 *>(stringPointer);
 		uint8 *encodedByte = reinterpret_cast<uint8 *>(encodedString);
-- 
2.43.0


From 21ad522251c5f4b1f560fdea9949851209bcd20b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:44:11 +0000
Subject: [PATCH 28/62] fix: release a serialized map element that cannot be
 stored

---
 Code/Json4C4/C4Json.h | 75 +++++++++++++++++++++++++++++--------------
 1 file changed, 51 insertions(+), 24 deletions(-)

diff --git a/Code/Json4C4/C4Json.h b/Code/Json4C4/C4Json.h
index d801e5c..bdd1a79 100644
--- a/Code/Json4C4/C4Json.h
+++ b/Code/Json4C4/C4Json.h
@@ -1105,25 +1105,38 @@ namespace C4
 
                     for ( const auto* dataMapElement : data )
                     {
-                        Value* elem = Detail::CreateValueFor( temp );
-                        elem->name  = dataMapElement->name;
+                        Value*      elem        = Detail::CreateValueFor( temp );
+                        const auto& elementData = dataMapElement->data;
 
-                        if constexpr ( Detail::HasSerializeMember<T>::Value )
-                        {
-                            status = dataMapElement->data.Serialize( elem );
-                        }
-                        else
-                        {
-                            status = Serialize( elem, dataMapElement->data );
-                        }
+                        status = MayThrow(
+                            [ & ]()
+                            {
+                                elem->name = dataMapElement->name;
+
+                                Status elementStatus;
+
+                                if constexpr ( Detail::HasSerializeMember<T>::Value )
+                                {
+                                    elementStatus = elementData.Serialize( elem );
+                                }
+                                else
+                                {
+                                    elementStatus = Serialize( elem, elementData );
+                                }
+
+                                if ( elementStatus == Status::kOk )
+                                {
+                                    objectValue->InsertAccountedMapElement( elem );
+                                }
+
+                                return elementStatus;
+                            } );
 
                         if ( status != Status::kOk )
                         {
                             delete elem;
                             return status;
                         }
-
-                        objectValue->InsertAccountedMapElement( elem );
                     }
                     return Status::kOk;
                 } );
@@ -1381,25 +1394,39 @@ namespace C4
 
                     for ( auto const& [ dataMapElementKey, dataMapElementData ] : data )
                     {
-                        Value* elem = Detail::CreateValueFor( temp );
-                        elem->name  = dataMapElementKey.c_str();
+                        Value*      elem        = Detail::CreateValueFor( temp );
+                        const auto& elementData = dataMapElementData;
+                        const char* elementName = dataMapElementKey.c_str();
 
-                        if constexpr ( Detail::HasSerializeMember<T>::Value )
-                        {
-                            status = dataMapElementData.Serialize( elem );
-                        }
-                        else
-                        {
-                            status = Serialize( elem, dataMapElementData );
-                        }
+                        status = MayThrow(
+                            [ & ]()
+                            {
+                                elem->name = elementName;
+
+                                Status elementStatus;
+
+                                if constexpr ( Detail::HasSerializeMember<T>::Value )
+                                {
+                                    elementStatus = elementData.Serialize( elem );
+                                }
+                                else
+                                {
+                                    elementStatus = Serialize( elem, elementData );
+                                }
+
+                                if ( elementStatus == Status::kOk )
+                                {
+                                    objectValue->InsertAccountedMapElement( elem );
+                                }
+
+                                return elementStatus;
+                            } );
 
                         if ( status != Status::kOk )
                         {
                             delete elem;
                             return status;
                         }
-
-                        objectValue->InsertAccountedMapElement( elem );
                     }
 
                     return Status::kOk;
-- 
2.43.0


From af1defe56c05edfd920b03630887f2e43e99a351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:44:15 +0000
Subject: [PATCH 29/62] fix: release a deserialized map element that cannot be
 named

---
 Code/Json4C4/C4Json.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/Code/Json4C4/C4Json.h b/Code/Json4C4/C4Json.h
index bdd1a79..dc91761 100644
--- a/Code/Json4C4/C4Json.h
+++ b/Code/Json4C4/C4Json.h
@@ -1033,16 +1033,16 @@ namespace C4
                             status = MayThrow(
                                 [ & ]()
                                 {
-                                    dataMapElement = new DataMapElementType;
+                                    dataMapElement       = new DataMapElementType;
+                                    dataMapElement->name = key;
                                     return Status::kOk;
                                 } );
 
                             if ( status != Status::kOk )
                             {
+                                delete dataMapElement;
                                 return status;
                             }
-
-                            dataMapElement->name = key;
                         }
 
                         if constexpr ( Detail::HasDeserializeMember<T>::Value )
-- 
2.43.0


From b7b87217346d54649130462acbaa65bc619ac921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:45:00 +0000
Subject: [PATCH 30/62] fix: do not keep a deleted root when serialization
 cannot start

---
 Code/Json4C4/C4Json.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Code/Json4C4/C4Json.h b/Code/Json4C4/C4Json.h
index dc91761..a842017 100644
--- a/Code/Json4C4/C4Json.h
+++ b/Code/Json4C4/C4Json.h
@@ -611,6 +611,7 @@ namespace C4
                 if ( rootJsonValue != nullptr )
                 {
                     delete rootJsonValue;
+                    rootJsonValue = nullptr;
                 }
 
                 Status status = MayThrow(
-- 
2.43.0


From 4a2607312ea71e3f00c4682419e5331ecafe992a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:49:32 +0000
Subject: [PATCH 31/62] fix: look members up by name without allocating

---
 Code/Json4C4/C4Json.cpp | 37 +++++++++++++++++++++++++++++++------
 Code/Json4C4/C4Json.h   | 11 +++++++----
 2 files changed, 38 insertions(+), 10 deletions(-)

diff --git a/Code/Json4C4/C4Json.cpp b/Code/Json4C4/C4Json.cpp
index 5240954..0740ab8 100644
--- a/Code/Json4C4/C4Json.cpp
+++ b/Code/Json4C4/C4Json.cpp
@@ -1717,9 +1717,34 @@ namespace C4
             return this;
         }
 
+        Value* ObjectValue::FindMember( const char* name ) const noexcept
+        {
+            MapElement<Value>* node = GetRootMapElement();
+
+            while ( node )
+            {
+                const String<>& nodeName = static_cast<Value*>( node )->name;
+
+                if ( nodeName > name )
+                {
+                    node = node->GetLeftSubnode();
+                }
+                else if ( nodeName < name )
+                {
+                    node = node->GetRightSubnode();
+                }
+                else
+                {
+                    break;
+                }
+            }
+
+            return static_cast<Value*>( node );
+        }
+
         const String<>* ObjectValue::FindString( const char* name ) const noexcept
         {
-            if ( Value* jsonValue = FindMapElement( name ) )
+            if ( Value* jsonValue = FindMember( name ) )
             {
                 if ( const String<>* data = jsonValue->GetDataAsPointerTo<String<>>() )
                 {
@@ -1732,7 +1757,7 @@ namespace C4
 
         const double* ObjectValue::FindNumber( const char* name ) const noexcept
         {
-            if ( Value* jsonValue = FindMapElement( name ) )
+            if ( Value* jsonValue = FindMember( name ) )
             {
                 if ( const double* data = jsonValue->GetDataAsPointerTo<double>() )
                 {
@@ -1745,7 +1770,7 @@ namespace C4
 
         const bool* ObjectValue::FindBool( const char* name ) const noexcept
         {
-            if ( Value* jsonValue = FindMapElement( name ) )
+            if ( Value* jsonValue = FindMember( name ) )
             {
                 if ( const bool* data = jsonValue->GetDataAsPointerTo<bool>() )
                 {
@@ -1758,7 +1783,7 @@ namespace C4
 
         const Null* ObjectValue::FindJsonNull( const char* name ) const noexcept
         {
-            if ( Value* jsonValue = FindMapElement( name ) )
+            if ( Value* jsonValue = FindMember( name ) )
             {
                 if ( const Null* data = jsonValue->GetDataAsPointerTo<Null>() )
                 {
@@ -1771,7 +1796,7 @@ namespace C4
 
         const Array<Value*>* ObjectValue::FindJsonValueArray( const char* name ) const noexcept
         {
-            if ( Value* jsonValue = FindMapElement( name ) )
+            if ( Value* jsonValue = FindMember( name ) )
             {
                 if ( const Array<Value*>* data = jsonValue->GetDataAsPointerTo<Array<Value*>>() )
                 {
@@ -1784,7 +1809,7 @@ namespace C4
 
         const ObjectValue* ObjectValue::FindJsonObjectValue( const char* name ) const noexcept
         {
-            if ( Value* jsonValue = FindMapElement( name ) )
+            if ( Value* jsonValue = FindMember( name ) )
             {
                 if ( const ObjectValue* value = jsonValue->AsJsonObjectValue() )
                 {
diff --git a/Code/Json4C4/C4Json.h b/Code/Json4C4/C4Json.h
index a842017..0785046 100644
--- a/Code/Json4C4/C4Json.h
+++ b/Code/Json4C4/C4Json.h
@@ -506,6 +506,9 @@ namespace C4
             TERATHON_API ObjectValue*       AsJsonObjectValue() noexcept override;
             TERATHON_API const ObjectValue* AsJsonObjectValue() const noexcept override;
 
+            // Unlike FindMapElement, this does not have to allocate a key
+            TERATHON_API Value* FindMember( const char* name ) const noexcept;
+
             TERATHON_API const String<>* FindString( const char* name ) const noexcept;
             TERATHON_API const double*   FindNumber( const char* name ) const noexcept;
             TERATHON_API const bool*     FindBool( const char* name ) const noexcept;
@@ -675,7 +678,7 @@ namespace C4
                 return Status::kInvalidValueType;
             }
 
-            const Value* associateValue = objectValue->FindMapElement( name );
+            const Value* associateValue = objectValue->FindMember( name );
 
             if ( !associateValue )
             {
@@ -695,7 +698,7 @@ namespace C4
                 return Status::kInvalidValueType;
             }
 
-            const Value* associateValue = objectValue->FindMapElement( name );
+            const Value* associateValue = objectValue->FindMember( name );
 
             if ( !associateValue )
             {
@@ -1473,7 +1476,7 @@ namespace C4
             Status status = Validate( value, name, data );
 
             // A name that is not present in a value that is present is still an error
-            if ( status != Status::kOk && ( status != Status::kNameNotPresent || value->AsJsonObjectValue()->FindMapElement( name ) != nullptr ) )
+            if ( status != Status::kOk && ( status != Status::kNameNotPresent || value->AsJsonObjectValue()->FindMember( name ) != nullptr ) )
             {
                 return status;
             }
@@ -1518,7 +1521,7 @@ namespace C4
             Status status = Deserialize( value, name, data );
 
             // A name that is not present in a value that is present is still an error
-            if ( status != Status::kOk && ( status != Status::kNameNotPresent || value->AsJsonObjectValue()->FindMapElement( name ) != nullptr ) )
+            if ( status != Status::kOk && ( status != Status::kNameNotPresent || value->AsJsonObjectValue()->FindMember( name ) != nullptr ) )
             {
                 return status;
             }
-- 
2.43.0


From 3719baffbc7276a7e12545e8f03542028faee95d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:22:49 +0000
Subject: [PATCH 32/62] fix: give the sign of the smallest integer

---
 Code/Terathon/TSBasic.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Code/Terathon/TSBasic.h b/Code/Terathon/TSBasic.h
index 0dc8e42..bb5bfcb 100644
--- a/Code/Terathon/TSBasic.h
+++ b/Code/Terathon/TSBasic.h
@@ -42,12 +42,12 @@ namespace Terathon
 
 	inline int32 Sgn(int32 x)
 	{
-		return ((x >> 31) - (-x >> 31));
+		return ((x > 0) - (x < 0));
 	}
 
 	inline int64 Sgn64(int64 x)
 	{
-		return ((x >> 63) - (-x >> 63));
+		return ((x > 0) - (x < 0));
 	}
 
 
-- 
2.43.0


From 5f5e7baef53c5eee885dab5400e1c1ffb843856c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:22:52 +0000
Subject: [PATCH 33/62] fix: keep a value that is exchanged with itself

---
 Code/Terathon/TSBasic.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/Code/Terathon/TSBasic.h b/Code/Terathon/TSBasic.h
index bb5bfcb..5861cc0 100644
--- a/Code/Terathon/TSBasic.h
+++ b/Code/Terathon/TSBasic.h
@@ -115,9 +115,9 @@ namespace Terathon
 	template <typename type>
 	inline void Exchange(type& x, type& y)
 	{
-		x ^= y;
-		y ^= x;
-		x ^= y;
+		type t = x;
+		x = y;
+		y = t;
 	}
 
 	template <>
-- 
2.43.0


From 81a58ec67ad934bdb66eeba6819d01d1a29dd239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:49:50 +0000
Subject: [PATCH 34/62] fix: print the smallest integer

---
 Code/Terathon/TSText.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/Code/Terathon/TSText.cpp b/Code/Terathon/TSText.cpp
index b66320b..2bbb122 100644
--- a/Code/Terathon/TSText.cpp
+++ b/Code/Terathon/TSText.cpp
@@ -1168,15 +1168,15 @@ int32 Text::IntegerToString(int32 num, char *text, int32 max)
 	char	c[16];
 
 	bool negative = (num < 0);
-	num = Abs(num) & 0x7FFFFFFF;
+	uint32 magnitude = (negative) ? 0U - uint32(num) : uint32(num);
 
 	machine length = 0;
 	do
 	{
-		int32 p = num % 10;
+		uint32 p = magnitude % 10;
 		c[length++] = char(p + 48);
-		num /= 10;
-	} while (num != 0);
+		magnitude /= 10;
+	} while (magnitude != 0);
 
 	machine a = -1;
 	if (negative)
@@ -1214,15 +1214,15 @@ int32 Text::Integer64ToString(int64 num, char *text, int32 max)
 	char	c[32];
 
 	bool negative = (num < 0);
-	num = Abs64(num) & 0x7FFFFFFFFFFFFFFFULL;
+	uint64 magnitude = (negative) ? uint64(0) - uint64(num) : uint64(num);
 
 	machine length = 0;
 	do
 	{
-		int32 p = num % 10;
+		uint32 p = uint32(magnitude % 10);
 		c[length++] = char(p + 48);
-		num /= 10;
-	} while (num != 0);
+		magnitude /= 10;
+	} while (magnitude != 0);
 
 	machine a = -1;
 	if (negative)
-- 
2.43.0


From a768a2ce1578758fa96faefe6513d5c45606a58d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:49:54 +0000
Subject: [PATCH 35/62] fix: print unsigned integers that are too large for a
 signed one

---
 Code/Terathon/TSString.cpp | 8 ++++----
 Code/Terathon/TSString.h   | 6 +++---
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/Code/Terathon/TSString.cpp b/Code/Terathon/TSString.cpp
index ef5b897..32b8a0f 100644
--- a/Code/Terathon/TSString.cpp
+++ b/Code/Terathon/TSString.cpp
@@ -197,7 +197,7 @@ String<0>::String(uint32 n)
 {
 	physicalSize = kStringLocalSize;
 	stringPointer = localString;
-	logicalSize = Text::IntegerToString(n, localString, kStringLocalSize - 1) + 1;
+	logicalSize = Text::Integer64ToString(n, localString, kStringLocalSize - 1) + 1;
 }
 
 String<0>::String(int64 n)
@@ -265,7 +265,7 @@ String<0>::String(uint32 n, const char *s1)
 	physicalSize = GetPhysicalSize(size);
 	stringPointer = new char[physicalSize];
 	Text::CopyText(s1, stringPointer);
-	logicalSize = len1 + Text::IntegerToString(n, stringPointer + len1, kStringAllocSize - 1) + 1;
+	logicalSize = len1 + Text::Integer64ToString(n, stringPointer + len1, kStringAllocSize - 1) + 1;
 }
 
 String<0>::String(int64 n, const char *s1)
@@ -421,7 +421,7 @@ String<0>& String<0>::operator =(int32 n)
 String<0>& String<0>::operator =(uint32 n)
 {
 	Resize(kStringAllocSize);
-	logicalSize = Text::IntegerToString(n, stringPointer, kStringAllocSize - 1) + 1;
+	logicalSize = Text::Integer64ToString(n, stringPointer, kStringAllocSize - 1) + 1;
 	return (*this);
 }
 
@@ -559,7 +559,7 @@ String<0>& String<0>::operator +=(uint32 n)
 		stringPointer = newPointer;
 	}
 
-	logicalSize += Text::IntegerToString(n, stringPointer + logicalSize - 1, kStringAllocSize - 1);
+	logicalSize += Text::Integer64ToString(n, stringPointer + logicalSize - 1, kStringAllocSize - 1);
 	return (*this);
 }
 
diff --git a/Code/Terathon/TSString.h b/Code/Terathon/TSString.h
index 9f01605..826a277 100644
--- a/Code/Terathon/TSString.h
+++ b/Code/Terathon/TSString.h
@@ -191,7 +191,7 @@ namespace Terathon
 
 			explicit String(uint32 n)
 			{
-				Text::IntegerToString(n, c, len);
+				Text::Integer64ToString(n, c, len);
 			}
 
 			explicit String(int64 n)
@@ -249,7 +249,7 @@ namespace Terathon
 
 			String& operator =(uint32 n)
 			{
-				Text::IntegerToString(n, c, len);
+				Text::Integer64ToString(n, c, len);
 				return (*this);
 			}
 
@@ -294,7 +294,7 @@ namespace Terathon
 			String& operator +=(uint32 n)
 			{
 				int32 l = GetStringLength();
-				Text::IntegerToString(n, &c[l], len - l);
+				Text::Integer64ToString(n, &c[l], len - l);
 				return (*this);
 			}
 
-- 
2.43.0


From d7a7c5836d5f22407ee4929add92c24405141a8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:27 +0000
Subject: [PATCH 36/62] fix: append 64-bit integers that are too large for a
 signed one

---
 Code/Terathon/TSString.cpp |  2 +-
 Code/Terathon/TSString.h   |  2 +-
 Code/Terathon/TSText.cpp   | 30 ++++++++++++++++++++++++++++++
 Code/Terathon/TSText.h     |  1 +
 4 files changed, 33 insertions(+), 2 deletions(-)

diff --git a/Code/Terathon/TSString.cpp b/Code/Terathon/TSString.cpp
index 32b8a0f..9063dbe 100644
--- a/Code/Terathon/TSString.cpp
+++ b/Code/Terathon/TSString.cpp
@@ -603,7 +603,7 @@ String<0>& String<0>::operator +=(uint64 n)
 		stringPointer = newPointer;
 	}
 
-	logicalSize += Text::Integer64ToString(n, stringPointer + logicalSize - 1, kStringAllocSize - 1);
+	logicalSize += Text::UnsignedInteger64ToString(n, stringPointer + logicalSize - 1, kStringAllocSize - 1);
 	return (*this);
 }
 
diff --git a/Code/Terathon/TSString.h b/Code/Terathon/TSString.h
index 826a277..930f20d 100644
--- a/Code/Terathon/TSString.h
+++ b/Code/Terathon/TSString.h
@@ -308,7 +308,7 @@ namespace Terathon
 			String& operator +=(uint64 n)
 			{
 				int32 l = GetStringLength();
-				Text::Integer64ToString(n, &c[l], len - l);
+				Text::UnsignedInteger64ToString(n, &c[l], len - l);
 				return (*this);
 			}
 
diff --git a/Code/Terathon/TSText.cpp b/Code/Terathon/TSText.cpp
index 2bbb122..fcddef2 100644
--- a/Code/Terathon/TSText.cpp
+++ b/Code/Terathon/TSText.cpp
@@ -1255,6 +1255,36 @@ int32 Text::Integer64ToString(int64 num, char *text, int32 max)
 	return (int32(a));
 }
 
+int32 Text::UnsignedInteger64ToString(uint64 num, char *text, int32 max)
+{
+	char	c[32];
+
+	machine length = 0;
+	do
+	{
+		uint32 p = uint32(num % 10);
+		c[length++] = char(p + 48);
+		num /= 10;
+	} while (num != 0);
+
+	machine a = -1;
+	do
+	{
+		if (++a < max)
+		{
+			text[a] = c[--length];
+		}
+		else
+		{
+			text[a] = 0;
+			return (int32(a));
+		}
+	} while (length != 0);
+
+	text[++a] = 0;
+	return (int32(a));
+}
+
 int32 Text::FloatToString(float num, char *text, int32 max)
 {
 	if (max < 1)
diff --git a/Code/Terathon/TSText.h b/Code/Terathon/TSText.h
index d29392f..b749b2c 100644
--- a/Code/Terathon/TSText.h
+++ b/Code/Terathon/TSText.h
@@ -351,6 +351,7 @@ namespace Terathon
 
 		TERATHON_API int32 IntegerToString(int32 num, char *text, int32 max);
 		TERATHON_API int32 Integer64ToString(int64 num, char *text, int32 max);
+		TERATHON_API int32 UnsignedInteger64ToString(uint64 num, char *text, int32 max);
 		TERATHON_API int32 FloatToString(float num, char *text, int32 max);
 
 		TERATHON_API int32 GetResourceNameLength(const char *text);
-- 
2.43.0


From b55c613f2dcbddae0f15814743149a5daae6a00f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:35 +0000
Subject: [PATCH 37/62] fix: remember that a shortened string uses its inline
 storage

---
 Code/Terathon/TSString.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Code/Terathon/TSString.cpp b/Code/Terathon/TSString.cpp
index 9063dbe..f9385b2 100644
--- a/Code/Terathon/TSString.cpp
+++ b/Code/Terathon/TSString.cpp
@@ -644,6 +644,7 @@ String<0>& String<0>::SetStringLength(int32 length)
 			{
 				Text::CopyText(stringPointer, localString, copyLength);
 				delete[] stringPointer;
+				physicalSize = kStringLocalSize;
 				stringPointer = localString;
 			}
 
-- 
2.43.0


From 5bbdfb7d3b80af2c6634a513e981a5b1945ae86c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:36 +0000
Subject: [PATCH 38/62] fix: keep a string that is assigned to itself

---
 Code/Terathon/TSString.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/Code/Terathon/TSString.cpp b/Code/Terathon/TSString.cpp
index f9385b2..62581e9 100644
--- a/Code/Terathon/TSString.cpp
+++ b/Code/Terathon/TSString.cpp
@@ -381,6 +381,11 @@ String<0>& String<0>::operator =(String&& s) noexcept
 
 String<0>& String<0>::operator =(const String& s)
 {
+	if (this == &s)
+	{
+		return (*this);
+	}
+
 	int32 size = s.logicalSize;
 	if (size > 1)
 	{
-- 
2.43.0


From e4e55c14177ff838a03fa28c09b8842572c4915b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:37 +0000
Subject: [PATCH 39/62] fix: append a string's own text to it

---
 Code/Terathon/TSString.cpp | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/Code/Terathon/TSString.cpp b/Code/Terathon/TSString.cpp
index 62581e9..918d279 100644
--- a/Code/Terathon/TSString.cpp
+++ b/Code/Terathon/TSString.cpp
@@ -456,6 +456,7 @@ String<0>& String<0>::operator +=(const String<>& s)
 			char *newPointer = new char[newSize];
 			physicalSize = newSize;
 			Text::CopyText(stringPointer, newPointer);
+			Text::CopyText(s, newPointer + logicalSize - 1, length);
 
 			if (stringPointer != localString)
 			{
@@ -464,8 +465,11 @@ String<0>& String<0>::operator +=(const String<>& s)
 
 			stringPointer = newPointer;
 		}
+		else
+		{
+			Text::CopyText(s, stringPointer + logicalSize - 1, length);
+		}
 
-		Text::CopyText(s, stringPointer + logicalSize - 1);
 		logicalSize = size;
 	}
 
@@ -484,6 +488,7 @@ String<0>& String<0>::operator +=(const char *s)
 			char *newPointer = new char[newSize];
 			physicalSize = newSize;
 			Text::CopyText(stringPointer, newPointer);
+			Text::CopyText(s, newPointer + logicalSize - 1, length);
 
 			if (stringPointer != localString)
 			{
@@ -492,8 +497,11 @@ String<0>& String<0>::operator +=(const char *s)
 
 			stringPointer = newPointer;
 		}
+		else
+		{
+			Text::CopyText(s, stringPointer + logicalSize - 1, length);
+		}
 
-		Text::CopyText(s, stringPointer + logicalSize - 1);
 		logicalSize = size;
 	}
 
@@ -681,6 +689,7 @@ String<0>& String<0>::AppendString(const char *s, int32 length)
 			char *newPointer = new char[newSize];
 			physicalSize = newSize;
 			Text::CopyText(stringPointer, newPointer);
+			Text::CopyText(s, newPointer + logicalSize - 1, length);
 
 			if (stringPointer != localString)
 			{
@@ -689,8 +698,11 @@ String<0>& String<0>::AppendString(const char *s, int32 length)
 
 			stringPointer = newPointer;
 		}
+		else
+		{
+			Text::CopyText(s, stringPointer + logicalSize - 1, length);
+		}
 
-		Text::CopyText(s, stringPointer + logicalSize - 1, length);
 		logicalSize = size;
 	}
 
-- 
2.43.0


From 9da28a815cc1bc6937a94633e6eb09d597afd760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:38 +0000
Subject: [PATCH 40/62] fix: count only the characters that AppendString
 appends

---
 Code/Terathon/TSString.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/Code/Terathon/TSString.cpp b/Code/Terathon/TSString.cpp
index 918d279..5681584 100644
--- a/Code/Terathon/TSString.cpp
+++ b/Code/Terathon/TSString.cpp
@@ -680,6 +680,15 @@ String<0>& String<0>::SetStringLength(int32 length)
 
 String<0>& String<0>::AppendString(const char *s, int32 length)
 {
+	for (machine a = 0; a < length; a++)
+	{
+		if (s[a] == 0)
+		{
+			length = int32(a);
+			break;
+		}
+	}
+
 	if (length > 0)
 	{
 		int32 size = logicalSize + length;
-- 
2.43.0


From 322cf8c75656da5417d82b8da7e8154aec6ad96f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:39 +0000
Subject: [PATCH 41/62] fix: count the terminator of a string with escape
 sequences

---
 Code/Terathon/TSString.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Code/Terathon/TSString.cpp b/Code/Terathon/TSString.cpp
index 5681584..4428912 100644
--- a/Code/Terathon/TSString.cpp
+++ b/Code/Terathon/TSString.cpp
@@ -823,9 +823,9 @@ String<0>& String<0>::EncodeEscapeSequences(void)
 
 	if (maxCharSize > 1)
 	{
-		int32 newSize = GetPhysicalSize(encodedLength);
+		int32 newSize = GetPhysicalSize(encodedLength + 1);
 		char *encodedString = new char[newSize];
-		logicalSize = encodedLength;
+		logicalSize = encodedLength + 1;
 		physicalSize = newSize;
 
 		byte = reinterpret_cast<uint8 *>(stringPointer);
-- 
2.43.0


From 3d5b25819cab57b9bb3ca0884968da755b26e97d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:39 +0000
Subject: [PATCH 42/62] fix: assign a part of a string to it

---
 Code/Terathon/TSString.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/Code/Terathon/TSString.cpp b/Code/Terathon/TSString.cpp
index 4428912..15284bc 100644
--- a/Code/Terathon/TSString.cpp
+++ b/Code/Terathon/TSString.cpp
@@ -337,6 +337,11 @@ String<0>& String<0>::Set(const char *s, int32 length)
 
 	if (length > 0)
 	{
+		if ((s >= stringPointer) && (s < stringPointer + logicalSize))
+		{
+			return (*this = String(s, length));
+		}
+
 		Resize(length + 1);
 		Text::CopyText(s, stringPointer, length);
 	}
@@ -405,6 +410,11 @@ String<0>& String<0>::operator =(const char *s)
 	int32 length = Text::GetTextLength(s);
 	if (length > 0)
 	{
+		if ((s >= stringPointer) && (s < stringPointer + logicalSize))
+		{
+			return (*this = String(s, length));
+		}
+
 		Resize(length + 1);
 		Text::CopyText(s, stringPointer);
 	}
-- 
2.43.0


From 3a8c6bcce1c745bf162654108e535123b169f010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:43:51 +0000
Subject: [PATCH 43/62] fix: append the text of a fixed-capacity string to
 itself once

---
 Code/Terathon/TSString.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/Code/Terathon/TSString.h b/Code/Terathon/TSString.h
index 930f20d..5b11cbc 100644
--- a/Code/Terathon/TSString.h
+++ b/Code/Terathon/TSString.h
@@ -268,7 +268,7 @@ namespace Terathon
 			String& operator +=(const char *s)
 			{
 				int32 l = GetStringLength();
-				Text::CopyText(s, &c[l], len - l);
+				Text::CopyText(s, &c[l], Min(len - l, Text::GetTextLength(s)));
 				return (*this);
 			}
 
@@ -386,6 +386,11 @@ namespace Terathon
 			String& AppendString(const char *s, int32 length)
 			{
 				int32 l = GetStringLength();
+				if ((s >= c) && (s <= c + l))
+				{
+					length = Min(length, l - int32(s - c));
+				}
+
 				Text::CopyText(s, &c[l], Min(len - l, length));
 				return (*this);
 			}
-- 
2.43.0


From 9deb62b365e5478151692953bc19b7058d96d8b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:45:18 +0000
Subject: [PATCH 44/62] fix: do not cut the line and column of a parse result

---
 Code/Json4C4/C4Json.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/Code/Json4C4/C4Json.cpp b/Code/Json4C4/C4Json.cpp
index 0740ab8..c37e671 100644
--- a/Code/Json4C4/C4Json.cpp
+++ b/Code/Json4C4/C4Json.cpp
@@ -2030,7 +2030,10 @@ namespace C4
 
             if ( parseResult.errorLine != 0 && parseResult.status != Status::kException )
             {
-                string += String<24>( ". Line: " ) + String<24>( parseResult.errorLine ) + String<24>( ", column: " ) + String<24>( parseResult.errorColumn );
+                string += ". Line: ";
+                string += parseResult.errorLine;
+                string += ", column: ";
+                string += parseResult.errorColumn;
             }
 
             return string;
-- 
2.43.0


From d65cda156217197c59a8c801cbcd12c050ef4b5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:47:36 +0000
Subject: [PATCH 45/62] fix: do not count characters beyond the terminator of a
 text

---
 Code/Terathon/TSText.cpp | 45 ++++++++++++++++------------------------
 1 file changed, 18 insertions(+), 27 deletions(-)

diff --git a/Code/Terathon/TSText.cpp b/Code/Terathon/TSText.cpp
index fcddef2..e523f84 100644
--- a/Code/Terathon/TSText.cpp
+++ b/Code/Terathon/TSText.cpp
@@ -192,22 +192,16 @@ int32 Text::GetUnicodeCharCount(const char *text)
 			break;
 		}
 
-		if ((c < 0xC0U) || (c >= 0xF8U))
-		{
-			text++;
-		}
-		else if (c < 0xE0U)
-		{
-			text += 2;
-		}
-		else if (c < 0xF0U)
+		int32 size = 1;
+		if ((c >= 0xC0U) && (c < 0xF8U))
 		{
-			text += 3;
+			size = (c < 0xE0U) ? 2 : ((c < 0xF0U) ? 3 : 4);
 		}
-		else
+
+		do
 		{
-			text += 4;
-		}
+			text++;
+		} while ((--size > 0) && (*text != 0));
 	}
 
 	return (count);
@@ -225,22 +219,16 @@ int32 Text::GetUnicodeCharCount(const char *text, int32 max)
 			break;
 		}
 
-		if ((c < 0xC0U) || (c >= 0xF8U))
-		{
-			text++;
-		}
-		else if (c < 0xE0U)
-		{
-			text += 2;
-		}
-		else if (c < 0xF0U)
+		int32 size = 1;
+		if ((c >= 0xC0U) && (c < 0xF8U))
 		{
-			text += 3;
+			size = (c < 0xE0U) ? 2 : ((c < 0xF0U) ? 3 : 4);
 		}
-		else
+
+		do
 		{
-			text += 4;
-		}
+			text++;
+		} while ((--size > 0) && (text < end) && (*text != 0));
 	}
 
 	return (count);
@@ -322,7 +310,10 @@ int32 Text::GetUnicodeCharStringByteCount(const char *text, int32 charCount)
 			}
 		}
 
-		count += size;
+		do
+		{
+			count++;
+		} while ((--size > 0) && (text[count] != 0));
 	}
 
 	return (count);
-- 
2.43.0


From 8fa3df439d650a7127eac76062f27d28ace835b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:47:37 +0000
Subject: [PATCH 46/62] fix: do not write half of a surrogate pair beyond the
 limit

---
 Code/Terathon/TSText.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/Code/Terathon/TSText.cpp b/Code/Terathon/TSText.cpp
index e523f84..f8453a3 100644
--- a/Code/Terathon/TSText.cpp
+++ b/Code/Terathon/TSText.cpp
@@ -454,6 +454,11 @@ void Text::ConvertStringToWideText(const char *string, uint16 *wideText, int32 m
 		}
 		else
 		{
+			if (max < 2)
+			{
+				break;
+			}
+
 			code -= 0x010000U;
 			wideText[0] = uint16((code >> 10) + 0xD800U);
 			wideText[1] = uint16((code & 0x03FF) + 0xDC00U);
-- 
2.43.0


From faecf5901ca84ea92cab7fee407df46ae0557561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:48:55 +0000
Subject: [PATCH 47/62] fix: order numbers with more leading zeros after those
 with fewer

---
 Code/Terathon/TSText.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/Code/Terathon/TSText.cpp b/Code/Terathon/TSText.cpp
index f8453a3..31c230d 100644
--- a/Code/Terathon/TSText.cpp
+++ b/Code/Terathon/TSText.cpp
@@ -978,9 +978,9 @@ bool Text::CompareNumberedTextLessThan(const char *s1, const char *s2)
 			{
 				return (xnum < ynum);
 			}
-			else if (xcount < ycount)
+			else if (xcount != ycount)
 			{
-				return (true);
+				return (xcount < ycount);
 			}
 		}
 		else
@@ -1038,9 +1038,9 @@ bool Text::CompareNumberedTextLessThanCaseless(const char *s1, const char *s2)
 			{
 				return (xnum < ynum);
 			}
-			else if (xcount < ycount)
+			else if (xcount != ycount)
 			{
-				return (true);
+				return (xcount < ycount);
 			}
 		}
 		else
-- 
2.43.0


From b4df2f6ffee3620954765e8a36eb409791186e52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:50:07 +0000
Subject: [PATCH 48/62] fix: compare embedded numbers of any size

---
 Code/Terathon/TSText.cpp | 117 ++++++++++++++++++++-------------------
 1 file changed, 61 insertions(+), 56 deletions(-)

diff --git a/Code/Terathon/TSText.cpp b/Code/Terathon/TSText.cpp
index 31c230d..c542dc3 100644
--- a/Code/Terathon/TSText.cpp
+++ b/Code/Terathon/TSText.cpp
@@ -933,6 +933,49 @@ bool Text::CompareTextLessEqualCaseless(const char *s1, const char *s2, int32 ma
 	return (true);
 }
 
+static int32 GetDigitCount(const char *text)
+{
+	int32 count = 0;
+	while (uint32(*reinterpret_cast<const uint8 *>(text + count)) - '0' < 10U)
+	{
+		count++;
+	}
+
+	return (count);
+}
+
+static int32 CompareNumbers(const char *n1, const char *n2)
+{
+	// Without leading zeros, the number with more digits is the larger one.
+
+	while (*n1 == '0')
+	{
+		n1++;
+	}
+
+	while (*n2 == '0')
+	{
+		n2++;
+	}
+
+	int32 xcount = GetDigitCount(n1);
+	int32 ycount = GetDigitCount(n2);
+	if (xcount != ycount)
+	{
+		return ((xcount < ycount) ? -1 : 1);
+	}
+
+	for (machine a = 0; a < xcount; a++)
+	{
+		if (n1[a] != n2[a])
+		{
+			return ((n1[a] < n2[a]) ? -1 : 1);
+		}
+	}
+
+	return (0);
+}
+
 bool Text::CompareNumberedTextLessThan(const char *s1, const char *s2)
 {
 	for (;;)
@@ -945,38 +988,19 @@ bool Text::CompareNumberedTextLessThan(const char *s1, const char *s2)
 
 		if ((xnum < 10U) && (ynum < 10U))
 		{
-			int32 xcount = 1;
-			int32 ycount = 1;
+			const char *n1 = s1 - 1;
+			const char *n2 = s2 - 1;
 
-			for (;;)
-			{
-				x = *reinterpret_cast<const uint8 *>(s1) - '0';
-				if (x >= 10U)
-				{
-					break;
-				}
-
-				xnum = xnum * 10 + x;
-				xcount++;
-				s1++;
-			}
-
-			for (;;)
-			{
-				y = *reinterpret_cast<const uint8 *>(s2) - '0';
-				if (y >= 10U)
-				{
-					break;
-				}
+			int32 order = CompareNumbers(n1, n2);
+			int32 xcount = GetDigitCount(n1);
+			int32 ycount = GetDigitCount(n2);
 
-				ynum = ynum * 10 + y;
-				ycount++;
-				s2++;
-			}
+			s1 = n1 + xcount;
+			s2 = n2 + ycount;
 
-			if (xnum != ynum)
+			if (order != 0)
 			{
-				return (xnum < ynum);
+				return (order < 0);
 			}
 			else if (xcount != ycount)
 			{
@@ -1005,38 +1029,19 @@ bool Text::CompareNumberedTextLessThanCaseless(const char *s1, const char *s2)
 
 		if ((xnum < 10U) && (ynum < 10U))
 		{
-			int32 xcount = 1;
-			int32 ycount = 1;
+			const char *n1 = s1 - 1;
+			const char *n2 = s2 - 1;
 
-			for (;;)
-			{
-				x = *reinterpret_cast<const uint8 *>(s1) - '0';
-				if (x >= 10U)
-				{
-					break;
-				}
+			int32 order = CompareNumbers(n1, n2);
+			int32 xcount = GetDigitCount(n1);
+			int32 ycount = GetDigitCount(n2);
 
-				xnum = xnum * 10 + x;
-				xcount++;
-				s1++;
-			}
-
-			for (;;)
-			{
-				y = *reinterpret_cast<const uint8 *>(s2) - '0';
-				if (y >= 10U)
-				{
-					break;
-				}
-
-				ynum = ynum * 10 + y;
-				ycount++;
-				s2++;
-			}
+			s1 = n1 + xcount;
+			s2 = n2 + ycount;
 
-			if (xnum != ynum)
+			if (order != 0)
 			{
-				return (xnum < ynum);
+				return (order < 0);
 			}
 			else if (xcount != ycount)
 			{
-- 
2.43.0


From ddead1a9b1503b60d0dc046406c566b3a40b84f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:57:57 +0000
Subject: [PATCH 49/62] fix: never find a quote character outside of quotes

---
 Code/Terathon/TSText.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/Code/Terathon/TSText.cpp b/Code/Terathon/TSText.cpp
index c542dc3..62a97a5 100644
--- a/Code/Terathon/TSText.cpp
+++ b/Code/Terathon/TSText.cpp
@@ -570,8 +570,7 @@ int32 Text::FindUnquotedChar(const char *text, uint32 k)
 				quote = false;
 			}
 		}
-
-		if ((c == k) && (!quote))
+		else if ((c == k) && (!quote))
 		{
 			return (int32(text - start));
 		}
-- 
2.43.0


From 9a462bbfd670cd0b7a79e53e22ff1132a5c74484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:57:58 +0000
Subject: [PATCH 50/62] fix: ignore the case of the first character in
 FindTextCaseless

---
 Code/Terathon/TSText.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/Code/Terathon/TSText.cpp b/Code/Terathon/TSText.cpp
index 62a97a5..404546c 100644
--- a/Code/Terathon/TSText.cpp
+++ b/Code/Terathon/TSText.cpp
@@ -1113,16 +1113,26 @@ int32 Text::FindText(const char *s1, const char *s2)
 int32 Text::FindTextCaseless(const char *s1, const char *s2)
 {
 	const char *start = s1;
-	int32 first = *reinterpret_cast<const uint8 *>(s2);
+	uint32 first = *reinterpret_cast<const uint8 *>(s2);
+
+	if (first - 'a' < 26U)
+	{
+		first -= 32;
+	}
 
 	for (;;)
 	{
-		int32 c = *reinterpret_cast<const uint8 *>(s1++);
+		uint32 c = *reinterpret_cast<const uint8 *>(s1++);
 		if (c == 0)
 		{
 			break;
 		}
 
+		if (c - 'a' < 26U)
+		{
+			c -= 32;
+		}
+
 		if (c == first)
 		{
 			const uint8 *s3 = reinterpret_cast<const uint8 *>(s1);
-- 
2.43.0


From 4f17f9b1a628a4492efcd9ceac54b73d64f17545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:57:59 +0000
Subject: [PATCH 51/62] fix: read negative exponents in ReadFloat

---
 Code/Terathon/TSText.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/Code/Terathon/TSText.cpp b/Code/Terathon/TSText.cpp
index 404546c..50139c3 100644
--- a/Code/Terathon/TSText.cpp
+++ b/Code/Terathon/TSText.cpp
@@ -1597,9 +1597,12 @@ int32 Text::ReadFloat(const char *text, char *number, int32 max)
 		}
 		else
 		{
-			if ((c == '-') && (expneg))
+			if (c == '-')
 			{
-				break;
+				if (expneg)
+				{
+					break;
+				}
 			}
 			else if (c - '0' >= 10U)
 			{
-- 
2.43.0


From 9b80fc29ec446788bdeff5c05cf4087d54f4ed9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:58:03 +0000
Subject: [PATCH 52/62] fix: make StaticHash agree with Hash for bytes above
 127

---
 Code/Terathon/TSText.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Code/Terathon/TSText.h b/Code/Terathon/TSText.h
index b749b2c..7329638 100644
--- a/Code/Terathon/TSText.h
+++ b/Code/Terathon/TSText.h
@@ -399,7 +399,7 @@ namespace Terathon
 				{
 					enum : uint32
 					{
-						hash = (c == 0) ? h : uint32((h ^ c) * 0x6B84DF47ULL + 1)
+						hash = (c == 0) ? h : uint32((h ^ uint8(c)) * 0x6B84DF47ULL + 1)
 					};
 				};
 
-- 
2.43.0


From d831c02a9f9cb478d4f372660fc7d5655ff22a8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:58:04 +0000
Subject: [PATCH 53/62] fix: count only the stored characters against the limit
 of ReadString

---
 Code/Terathon/TSText.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/Code/Terathon/TSText.cpp b/Code/Terathon/TSText.cpp
index 50139c3..c43918b 100644
--- a/Code/Terathon/TSText.cpp
+++ b/Code/Terathon/TSText.cpp
@@ -1629,7 +1629,7 @@ int32 Text::ReadString(const char *text, char *string, int32 max)
 		text++;
 		bool backslash = false;
 
-		while (--max >= 0)
+		for (;;)
 		{
 			uint32 c = *reinterpret_cast<const uint8 *>(text);
 			if (c == 0)
@@ -1637,20 +1637,26 @@ int32 Text::ReadString(const char *text, char *string, int32 max)
 				break;
 			}
 
-			text++;
-
 			if ((c != 92) || (backslash))
 			{
 				if ((c == 34) && (!backslash))
+				{
+					text++;
+					break;
+				}
+
+				if (--max < 0)
 				{
 					break;
 				}
 
+				text++;
 				*string++ = char(c);
 				backslash = false;
 			}
 			else
 			{
+				text++;
 				backslash = true;
 			}
 		}
-- 
2.43.0


From e86210b78ac920de41f82b8218776bf57a355577 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:03:00 +0000
Subject: [PATCH 54/62] fix: release the storage of moved arrays that no longer
 need it

---
 Code/Terathon/TSArray.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Code/Terathon/TSArray.h b/Code/Terathon/TSArray.h
index f9080c5..99b003e 100644
--- a/Code/Terathon/TSArray.h
+++ b/Code/Terathon/TSArray.h
@@ -403,7 +403,7 @@ namespace Terathon
 	{
 		elementCount = array.elementCount;
 
-		if (elementCount > baseCount)
+		if (reinterpret_cast<char *>(array.arrayPointer) != array.arrayStorage)
 		{
 			reservedCount = array.reservedCount;
 			arrayPointer = array.arrayPointer;
-- 
2.43.0


From 40165191c9e8735119a5f5a6c52a9da7e10b2064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:03:04 +0000
Subject: [PATCH 55/62] fix: keep the reserved count of an array when its
 storage cannot be enlarged

---
 Code/Terathon/TSArray.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/Code/Terathon/TSArray.h b/Code/Terathon/TSArray.h
index 99b003e..ce52b6d 100644
--- a/Code/Terathon/TSArray.h
+++ b/Code/Terathon/TSArray.h
@@ -477,8 +477,8 @@ namespace Terathon
 	template <typename type, int32 baseCount>
 	void Array<type, baseCount>::SetReservedCount(int32 count)
 	{
-		reservedCount = Max(Max(count, 4), reservedCount + Max((reservedCount / 2 + 3) & ~3, baseCount));
-		type *newPointer = reinterpret_cast<type *>(new char[sizeof(type) * reservedCount]);
+		int32 newCount = Max(Max(count, 4), reservedCount + Max((reservedCount / 2 + 3) & ~3, baseCount));
+		type *newPointer = reinterpret_cast<type *>(new char[sizeof(type) * newCount]);
 
 		type *pointer = arrayPointer;
 		for (machine a = 0; a < elementCount; a++)
@@ -495,6 +495,7 @@ namespace Terathon
 		}
 
 		arrayPointer = newPointer;
+		reservedCount = newCount;
 	}
 
 	template <typename type, int32 baseCount>
@@ -787,8 +788,8 @@ namespace Terathon
 	template <typename type>
 	void Array<type, 0>::SetReservedCount(int32 count)
 	{
-		reservedCount = Max(Max(count, 4), reservedCount + Max((reservedCount / 2 + 3) & ~3, 4));
-		type *newPointer = reinterpret_cast<type *>(new char[sizeof(type) * reservedCount]);
+		int32 newCount = Max(Max(count, 4), reservedCount + Max((reservedCount / 2 + 3) & ~3, 4));
+		type *newPointer = reinterpret_cast<type *>(new char[sizeof(type) * newCount]);
 
 		type *pointer = arrayPointer;
 		if (pointer)
@@ -804,6 +805,7 @@ namespace Terathon
 		}
 
 		arrayPointer = newPointer;
+		reservedCount = newCount;
 	}
 
 	template <typename type>
-- 
2.43.0


From 1b260b7f2132c90267e3716c5e0cc0dfd8941078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:04:41 +0000
Subject: [PATCH 56/62] fix: release the copied elements of an array when
 copying another one fails

---
 Code/Terathon/TSArray.h | 34 +++++++++-------------------------
 1 file changed, 9 insertions(+), 25 deletions(-)

diff --git a/Code/Terathon/TSArray.h b/Code/Terathon/TSArray.h
index ce52b6d..d560206 100644
--- a/Code/Terathon/TSArray.h
+++ b/Code/Terathon/TSArray.h
@@ -377,24 +377,18 @@ namespace Terathon
 	}
 
 	template <typename type, int32 baseCount>
-	Array<type, baseCount>::Array(const Array& array)
+	Array<type, baseCount>::Array(const Array& array) : Array()
 	{
-		elementCount = array.elementCount;
-
-		if (elementCount > baseCount)
+		if (array.elementCount > baseCount)
 		{
+			arrayPointer = reinterpret_cast<type *>(new char[sizeof(type) * array.reservedCount]);
 			reservedCount = array.reservedCount;
-			arrayPointer = reinterpret_cast<type *>(new char[sizeof(type) * reservedCount]);
-		}
-		else
-		{
-			reservedCount = baseCount;
-			arrayPointer = reinterpret_cast<type *>(arrayStorage);
 		}
 
-		for (machine a = 0; a < elementCount; a++)
+		for (machine a = 0; a < array.elementCount; a++)
 		{
 			new(&arrayPointer[a]) type(array.arrayPointer[a]);
+			elementCount++;
 		}
 	}
 
@@ -714,22 +708,12 @@ namespace Terathon
 	}
 
 	template <typename type>
-	Array<type, 0>::Array(const Array& array)
+	Array<type, 0>::Array(const Array& array) : Array(array.reservedCount)
 	{
-		elementCount = array.elementCount;
-		reservedCount = array.reservedCount;
-
-		if (reservedCount > 0)
+		for (machine a = 0; a < array.elementCount; a++)
 		{
-			arrayPointer = reinterpret_cast<type *>(new char[sizeof(type) * reservedCount]);
-			for (machine a = 0; a < elementCount; a++)
-			{
-				new(&arrayPointer[a]) type(array.arrayPointer[a]);
-			}
-		}
-		else
-		{
-			arrayPointer = nullptr;
+			new(&arrayPointer[a]) type(array.arrayPointer[a]);
+			elementCount++;
 		}
 	}
 
-- 
2.43.0


From c3c2da0a75d1c33617c17d7d84f06add5d956ea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:04:46 +0000
Subject: [PATCH 57/62] fix: count the elements added to an array one by one,
 so that they are destroyed when adding another one fails

---
 Code/Terathon/TSArray.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/Code/Terathon/TSArray.h b/Code/Terathon/TSArray.h
index d560206..50382a5 100644
--- a/Code/Terathon/TSArray.h
+++ b/Code/Terathon/TSArray.h
@@ -515,6 +515,7 @@ namespace Terathon
 			for (machine a = elementCount; a < count; a++)
 			{
 				new(++pointer) type;
+				elementCount++;
 			}
 		}
 		else if (count < elementCount)
@@ -543,6 +544,7 @@ namespace Terathon
 			for (machine a = elementCount; a < count; a++)
 			{
 				new(++pointer) type(init);
+				elementCount++;
 			}
 		}
 		else if (count < elementCount)
@@ -604,6 +606,7 @@ namespace Terathon
 			for (machine a = elementCount; a < index; a++)
 			{
 				new(++pointer) type;
+				elementCount++;
 			}
 
 			new (++pointer) type(static_cast<T&&>(element));
@@ -815,6 +818,7 @@ namespace Terathon
 			for (machine a = elementCount; a < count; a++)
 			{
 				new(++pointer) type;
+				elementCount++;
 			}
 		}
 		else if (count < elementCount)
@@ -843,6 +847,7 @@ namespace Terathon
 			for (machine a = elementCount; a < count; a++)
 			{
 				new(++pointer) type(init);
+				elementCount++;
 			}
 		}
 		else if (count < elementCount)
@@ -904,6 +909,7 @@ namespace Terathon
 			for (machine a = elementCount; a < index; a++)
 			{
 				new(++pointer) type;
+				elementCount++;
 			}
 
 			new (++pointer) type(static_cast<T&&>(element));
-- 
2.43.0


From edd590495275c0bb01c2e18abfb3e93e2932083d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:05:24 +0000
Subject: [PATCH 58/62] fix: allow elements of an array to be added to the same
 array

---
 Code/Terathon/TSArray.h | 34 ++++++++++++++++++++++++++++++----
 1 file changed, 30 insertions(+), 4 deletions(-)

diff --git a/Code/Terathon/TSArray.h b/Code/Terathon/TSArray.h
index 50382a5..59b2891 100644
--- a/Code/Terathon/TSArray.h
+++ b/Code/Terathon/TSArray.h
@@ -535,7 +535,12 @@ namespace Terathon
 	{
 		if (count > reservedCount)
 		{
+			// The initial value may be stored in this array.
+
+			type object(init);
 			SetReservedCount(count);
+			SetArrayElementCount(count, object);
+			return;
 		}
 
 		if (count > elementCount)
@@ -580,7 +585,11 @@ namespace Terathon
 	{
 		if (elementCount >= reservedCount)
 		{
+			// The element may be stored in this array.
+
+			type object(static_cast<T&&>(element));
 			SetReservedCount(elementCount + 1);
+			return (AppendArrayElement(static_cast<type&&>(object)));
 		}
 
 		type *pointer = arrayPointer + elementCount;
@@ -594,6 +603,10 @@ namespace Terathon
 	template <typename T>
 	void Array<type, baseCount>::InsertArrayElement(int32 index, T&& element)
 	{
+		// The element may be stored in this array.
+
+		type object(static_cast<T&&>(element));
+
 		if (index >= elementCount)
 		{
 			int32 count = index + 1;
@@ -609,7 +622,7 @@ namespace Terathon
 				elementCount++;
 			}
 
-			new (++pointer) type(static_cast<T&&>(element));
+			new (++pointer) type(static_cast<type&&>(object));
 			elementCount = count;
 		}
 		else
@@ -627,7 +640,7 @@ namespace Terathon
 				(--pointer)->~type();
 			}
 
-			new (&arrayPointer[index]) type(static_cast<T&&>(element));
+			new (&arrayPointer[index]) type(static_cast<type&&>(object));
 			elementCount = count;
 		}
 	}
@@ -838,7 +851,12 @@ namespace Terathon
 	{
 		if (count > reservedCount)
 		{
+			// The initial value may be stored in this array.
+
+			type object(init);
 			SetReservedCount(count);
+			SetArrayElementCount(count, object);
+			return;
 		}
 
 		if (count > elementCount)
@@ -883,7 +901,11 @@ namespace Terathon
 	{
 		if (elementCount >= reservedCount)
 		{
+			// The element may be stored in this array.
+
+			type object(static_cast<T&&>(element));
 			SetReservedCount(elementCount + 1);
+			return (AppendArrayElement(static_cast<type&&>(object)));
 		}
 
 		type *pointer = arrayPointer + elementCount;
@@ -897,6 +919,10 @@ namespace Terathon
 	template <typename T>
 	void Array<type, 0>::InsertArrayElement(int32 index, T&& element)
 	{
+		// The element may be stored in this array.
+
+		type object(static_cast<T&&>(element));
+
 		if (index >= elementCount)
 		{
 			int32 count = index + 1;
@@ -912,7 +938,7 @@ namespace Terathon
 				elementCount++;
 			}
 
-			new (++pointer) type(static_cast<T&&>(element));
+			new (++pointer) type(static_cast<type&&>(object));
 			elementCount = count;
 		}
 		else
@@ -930,7 +956,7 @@ namespace Terathon
 				(--pointer)->~type();
 			}
 
-			new (&arrayPointer[index]) type(static_cast<T&&>(element));
+			new (&arrayPointer[index]) type(static_cast<type&&>(object));
 			elementCount = count;
 		}
 	}
-- 
2.43.0


From a0e3f58d6b0a99ab8a068e42c958b1991f18c581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:21 +0000
Subject: [PATCH 59/62] fix: make the combined floor and ceiling exact for
 numbers above 2^23

---
 Code/Terathon/TSSimd.h | 34 ++++++++++++++++++++++++++--------
 1 file changed, 26 insertions(+), 8 deletions(-)

diff --git a/Code/Terathon/TSSimd.h b/Code/Terathon/TSSimd.h
index 059eaa7..1b33b41 100644
--- a/Code/Terathon/TSSimd.h
+++ b/Code/Terathon/TSSimd.h
@@ -1529,8 +1529,13 @@ namespace Terathon
 				const vec_float two23 = VecLoadVectorConstant<0x4B000000>();
 
 				vec_float result = _mm_sub_ps(_mm_add_ps(_mm_add_ps(_mm_sub_ps(v, two23), two23), two23), two23);
-				*f = _mm_sub_ps(result, _mm_and_ps(one, _mm_cmplt_ps(v, result)));
-				*c = _mm_add_ps(result, _mm_and_ps(one, _mm_cmplt_ps(result, v)));
+				vec_float floor = _mm_sub_ps(result, _mm_and_ps(one, _mm_cmplt_ps(v, result)));
+				vec_float ceil = _mm_add_ps(result, _mm_and_ps(one, _mm_cmplt_ps(result, v)));
+
+				vec_float mask = _mm_cmplt_ps(two23, _mm_andnot_ps(VecFloatGetMinusZero(), v));
+				vec_float large = _mm_and_ps(mask, v);
+				*f = _mm_or_ps(_mm_andnot_ps(mask, floor), large);
+				*c = _mm_or_ps(_mm_andnot_ps(mask, ceil), large);
 
 			#endif
 
@@ -1540,8 +1545,12 @@ namespace Terathon
 			const vec_float two23 = vdupq_n_f32(8388608.0F);
 
 			vec_float result = vsubq_f32(vaddq_f32(vaddq_f32(vsubq_f32(v, two23), two23), two23), two23);
-			*f = vsubq_f32(result, vreinterpretq_f32_u32(vandq_u32(one, vcltq_f32(v, result))));
-			*c = vaddq_f32(result, vreinterpretq_f32_u32(vandq_u32(one, vcltq_f32(result, v))));
+			vec_float floor = vsubq_f32(result, vreinterpretq_f32_u32(vandq_u32(one, vcltq_f32(v, result))));
+			vec_float ceil = vaddq_f32(result, vreinterpretq_f32_u32(vandq_u32(one, vcltq_f32(result, v))));
+
+			vec_uint32 mask = vcltq_f32(two23, vabsq_f32(v));
+			*f = vbslq_f32(mask, v, floor);
+			*c = vbslq_f32(mask, v, ceil);
 
 		#endif
 	}
@@ -1561,8 +1570,13 @@ namespace Terathon
 				const vec_float two23 = VecLoadVectorConstant<0x4B000000>();
 
 				vec_float result = _mm_sub_ss(_mm_add_ss(_mm_add_ss(_mm_sub_ss(v, two23), two23), two23), two23);
-				*f = _mm_sub_ss(result, _mm_and_ps(one, _mm_cmplt_ps(v, result)));
-				*c = _mm_add_ss(result, _mm_and_ps(one, _mm_cmplt_ps(result, v)));
+				vec_float floor = _mm_sub_ss(result, _mm_and_ps(one, _mm_cmplt_ps(v, result)));
+				vec_float ceil = _mm_add_ss(result, _mm_and_ps(one, _mm_cmplt_ps(result, v)));
+
+				vec_float mask = _mm_cmplt_ps(two23, _mm_andnot_ps(VecFloatGetMinusZero(), v));
+				vec_float large = _mm_and_ps(mask, v);
+				*f = _mm_or_ps(_mm_andnot_ps(mask, floor), large);
+				*c = _mm_or_ps(_mm_andnot_ps(mask, ceil), large);
 
 			#endif
 
@@ -1572,8 +1586,12 @@ namespace Terathon
 			const vec_float two23 = vdupq_n_f32(8388608.0F);
 
 			vec_float result = vsubq_f32(vaddq_f32(vaddq_f32(vsubq_f32(v, two23), two23), two23), two23);
-			*f = vsubq_f32(result, vreinterpretq_f32_u32(vandq_u32(one, vcltq_f32(v, result))));
-			*c = vaddq_f32(result, vreinterpretq_f32_u32(vandq_u32(one, vcltq_f32(result, v))));
+			vec_float floor = vsubq_f32(result, vreinterpretq_f32_u32(vandq_u32(one, vcltq_f32(v, result))));
+			vec_float ceil = vaddq_f32(result, vreinterpretq_f32_u32(vandq_u32(one, vcltq_f32(result, v))));
+
+			vec_uint32 mask = vcltq_f32(two23, vabsq_f32(v));
+			*f = vbslq_f32(mask, v, floor);
+			*c = vbslq_f32(mask, v, ceil);
 
 		#endif
 	}
-- 
2.43.0


From 05004b9a3380e09c408616a41d74ad7655e81cd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:02 +0000
Subject: [PATCH 60/62] fix: count the mantissa in the length of the text of a
 float with an exponent

---
 Code/Terathon/TSText.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Code/Terathon/TSText.cpp b/Code/Terathon/TSText.cpp
index c43918b..b347083 100644
--- a/Code/Terathon/TSText.cpp
+++ b/Code/Terathon/TSText.cpp
@@ -1480,7 +1480,7 @@ int32 Text::FloatToString(float num, char *text, int32 max)
 	if ((power != 0) && (len < max))
 	{
 		text[len++] = 'e';
-		return (IntegerToString(power, &text[len], max - len));
+		return (len + IntegerToString(power, &text[len], max - len));
 	}
 
 	end:
-- 
2.43.0


From e3ead16b6a67efe477fe6a3ab92cb18d50f20378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:03 +0000
Subject: [PATCH 61/62] fix: convert floats below 1e-37 to text

---
 Code/Terathon/TSText.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Code/Terathon/TSText.cpp b/Code/Terathon/TSText.cpp
index b347083..532a27e 100644
--- a/Code/Terathon/TSText.cpp
+++ b/Code/Terathon/TSText.cpp
@@ -1360,7 +1360,8 @@ int32 Text::FloatToString(float num, char *text, int32 max)
 	float absolute = Fabs(num);
 	if ((absolute < 1.0e-4F) || (!(absolute < 1.0e5F)))
 	{
-		float f = Floor(Log(absolute) * Math::one_over_ln_10);
+		// The smallest power of ten that can be represented with full precision is 10^-37.
+		float f = Fmax(Floor(Log(absolute) * Math::one_over_ln_10), -37.0F);
 		absolute /= Exp(f * Math::ln_10);
 		power = int32(f);
 
-- 
2.43.0


From 6d3f24c4fbe26892d7dcdbe3d46d19ac8066dc9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:00 +0000
Subject: [PATCH 62/62] fix: allow maps as the elements of object maps

---
 Code/Json4C4/C4Json.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Code/Json4C4/C4Json.h b/Code/Json4C4/C4Json.h
index 0785046..118532a 100644
--- a/Code/Json4C4/C4Json.h
+++ b/Code/Json4C4/C4Json.h
@@ -216,7 +216,7 @@ namespace C4
             using KeyType = Terathon::String<>;
 
             KeyType   name;
-            ValueType data = ValueType {};
+            ValueType data = ValueType();
 
             TERATHON_API inline const KeyType& GetKey() const noexcept
             {
-- 
2.43.0

