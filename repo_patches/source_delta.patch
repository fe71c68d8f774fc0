From eb8233b29fc2635a4867968b98304edacae66122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:40 +0000
Subject: [PATCH 001/118] fix: count line breaks in the number of bytes
 returned by the Base64 encoder

---
 src/vmime/utility/encoder/b64Encoder.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/vmime/utility/encoder/b64Encoder.cpp b/src/vmime/utility/encoder/b64Encoder.cpp
index ef4e581..e54720e 100644
--- a/src/vmime/utility/encoder/b64Encoder.cpp
+++ b/src/vmime/utility/encoder/b64Encoder.cpp
@@ -183,6 +183,7 @@ size_t b64Encoder::encode(
 
 		if (cutLines && curCol + 2 /* \r\n */ + 4 /* next bytes */ >= maxLineLength) {
 			out.write("\r\n", 2);
+			total += 2;
 			curCol = 0;
 		}
 
-- 
2.43.0


From 1bb42b3ac6284fcbe2c26be69950f76b36d7521a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:02 +0000
Subject: [PATCH 002/118] fix: Base64 and Quoted-Printable encoded size
 estimates ignored line breaks

---
 src/vmime/utility/encoder/b64Encoder.cpp | 11 ++++++++---
 src/vmime/utility/encoder/qpEncoder.cpp  |  9 ++++++---
 2 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/vmime/utility/encoder/b64Encoder.cpp b/src/vmime/utility/encoder/b64Encoder.cpp
index e54720e..75ac092 100644
--- a/src/vmime/utility/encoder/b64Encoder.cpp
+++ b/src/vmime/utility/encoder/b64Encoder.cpp
@@ -333,9 +333,14 @@ size_t b64Encoder::getEncodedSize(const size_t n) const {
 	const bool cutLines = (propMaxLineLength != static_cast <size_t>(-1));
 	const size_t maxLineLength = std::min(propMaxLineLength, static_cast <size_t>(76));
 
-	return (n * 4) / 3                               // 3 bytes of input provide 4 bytes of output
-		 + (cutLines ? (n / maxLineLength) * 2 : 0)  // CRLF (2 bytes) for each line.
-		 + 4;                                        // padding
+	// 3 bytes of input provide 4 bytes of output (including padding)
+	const size_t encodedLength = ((n + 2) / 3) * 4;
+
+	// A line is cut as soon as the next 4 bytes, plus CRLF, may not fit
+	const size_t lineLength = maxLineLength > 10 ? ((maxLineLength - 3) / 4) * 4 : 4;
+
+	return encodedLength
+		 + (cutLines ? (encodedLength / lineLength) * 2 : 0);  // CRLF (2 bytes) for each line.
 }
 
 
diff --git a/src/vmime/utility/encoder/qpEncoder.cpp b/src/vmime/utility/encoder/qpEncoder.cpp
index 4aeb640..6962b83 100644
--- a/src/vmime/utility/encoder/qpEncoder.cpp
+++ b/src/vmime/utility/encoder/qpEncoder.cpp
@@ -550,9 +550,12 @@ size_t qpEncoder::getEncodedSize(const size_t n) const {
 	const bool cutLines = (propMaxLineLength != static_cast <size_t>(-1));
 	const size_t maxLineLength = std::min(propMaxLineLength, static_cast <size_t>(74));
 
-	// Worst cast: 1 byte of input provide 3 bytes of output
-	// Count CRLF (2 bytes) for each line.
-	return n * 3 + (cutLines ? (n / maxLineLength) * 2 : 0);
+	// A line is cut as soon as it has (maxLineLength - 1) bytes
+	const size_t lineLength = std::max(maxLineLength, static_cast <size_t>(2)) - 1;
+
+	// Worst case: 1 byte of input provide 3 bytes of output
+	// Count soft line break (3 bytes) for each line.
+	return n * 3 + (cutLines ? ((n * 3) / lineLength) * 3 : 0);
 }
 
 
-- 
2.43.0


From 685b086aef79bf7120d928aaf5bedf1bd772dc4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:47 +0000
Subject: [PATCH 003/118] fix: uuencode decoder overflowed its buffer, lost
 bytes of incomplete groups and misread short reads

---
 src/vmime/utility/encoder/uuEncoder.cpp | 38 ++++++++++++++++++-------
 1 file changed, 28 insertions(+), 10 deletions(-)

diff --git a/src/vmime/utility/encoder/uuEncoder.cpp b/src/vmime/utility/encoder/uuEncoder.cpp
index 24dcdc8..e8c983d 100644
--- a/src/vmime/utility/encoder/uuEncoder.cpp
+++ b/src/vmime/utility/encoder/uuEncoder.cpp
@@ -63,6 +63,18 @@ static inline unsigned int UUDECODE(const unsigned int c) {
 	return (c - ' ') & 077;
 }
 
+// Read the specified number of bytes, unless the end of the stream is reached
+static size_t readBytes(utility::inputStream& in, byte_t* const data, const size_t count) {
+
+	size_t read = 0;
+
+	while (read < count && !in.eof()) {
+		read += in.read(data + read, count - read);
+	}
+
+	return read;
+}
+
 
 size_t uuEncoder::encode(
 	utility::inputStream& in,
@@ -155,9 +167,10 @@ size_t uuEncoder::decode(
 
 	in.reset();  // may not work...
 
-	// Process the data
-	byte_t inBuffer[64];
-	byte_t outBuffer[64];
+	// Process the data: a line carries up to 63 bytes, which are encoded
+	// into groups of 4 characters (3 bytes each)
+	byte_t inBuffer[84];
+	byte_t outBuffer[63];
 
 	size_t total = 0;
 	size_t inTotal = 0;
@@ -180,7 +193,7 @@ size_t uuEncoder::decode(
 		}
 
 		const size_t outLength = UUDECODE(lengthChar);
-		const size_t inLength = std::min((outLength * 4) / 3, static_cast <size_t>(64));
+		const size_t inLength = ((outLength + 2) / 3) * 4;
 		size_t inPos = 0;
 
 		switch (lengthChar) {
@@ -196,7 +209,7 @@ size_t uuEncoder::decode(
 			case 'b': {
 
 				// Read 5 characters more to check for begin ("begin ...\r\n" or "begin ...\n")
-				inPos = in.read(inBuffer, 5);
+				inPos = readBytes(in, inBuffer, 5);
 
 				if (inPos == 5 &&
 				    inBuffer[0] == 'e' &&
@@ -243,7 +256,7 @@ size_t uuEncoder::decode(
 
 						while (*p && parserHelpers::isSpace(*p)) ++p;
 
-						byte_t* modeStart = buffer;
+						byte_t* modeStart = p;
 
 						while (*p && !parserHelpers::isSpace(*p)) ++p;
 
@@ -251,7 +264,7 @@ size_t uuEncoder::decode(
 
 						while (*p && parserHelpers::isSpace(*p)) ++p;
 
-						byte_t* filenameStart = buffer;
+						byte_t* filenameStart = p;
 
 						while (*p && !(*p == '\r' || *p == '\n')) ++p;
 
@@ -272,7 +285,7 @@ size_t uuEncoder::decode(
 			case 'e': {
 
 				// Read 3 characters more to check for end ("end\r\n" or "end\n")
-				inPos = in.read(inBuffer, 3);
+				inPos = readBytes(in, inBuffer, 3);
 
 				if (inPos == 3 &&
 				    inBuffer[0] == 'n' &&
@@ -289,8 +302,13 @@ size_t uuEncoder::decode(
 
 		}
 
+		// Not a line of data
+		if (inPos > inLength) {
+			break;
+		}
+
 		// Read encoded data
-		if (in.read(inBuffer + inPos, inLength - inPos) != inLength - inPos) {
+		if (readBytes(in, inBuffer + inPos, inLength - inPos) != inLength - inPos) {
 			// Premature end of data
 			break;
 		}
@@ -305,7 +323,7 @@ size_t uuEncoder::decode(
 			const byte_t c3 = inBuffer[i + 2];
 			const byte_t c4 = inBuffer[i + 3];
 
-			const size_t n = std::min(inLength - i, static_cast <size_t>(3));
+			const size_t n = std::min(outLength - j, static_cast <size_t>(3));
 
 			if (n >= 3) {
 				outBuffer[j + 2] = static_cast <byte_t>(UUDECODE(c3) << 6 | UUDECODE(c4));
-- 
2.43.0


From 074067826ecc5a8f4a04bbbd2109f08258b64a7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:11 +0000
Subject: [PATCH 004/118] fix: uuencode size estimate and endless loop with
 tiny maxlinelength

---
 src/vmime/utility/encoder/uuEncoder.cpp | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/vmime/utility/encoder/uuEncoder.cpp b/src/vmime/utility/encoder/uuEncoder.cpp
index e8c983d..23af285 100644
--- a/src/vmime/utility/encoder/uuEncoder.cpp
+++ b/src/vmime/utility/encoder/uuEncoder.cpp
@@ -63,6 +63,14 @@ static inline unsigned int UUDECODE(const unsigned int c) {
 	return (c - ' ') & 077;
 }
 
+// Maximum length of a line: the length character, plus up to 45 bytes of input
+static size_t getMaxLineLength(const propertySet& props) {
+
+	const size_t maxLineLength = props.getProperty <size_t>("maxlinelength", 46);
+
+	return std::max(std::min(maxLineLength, static_cast <size_t>(46)), static_cast <size_t>(2));
+}
+
 // Read the specified number of bytes, unless the end of the stream is reached
 static size_t readBytes(utility::inputStream& in, byte_t* const data, const size_t count) {
 
@@ -87,8 +95,7 @@ size_t uuEncoder::encode(
 	const string propFilename = getProperties().getProperty <string>("filename", "");
 	const string propMode = getProperties().getProperty <string>("mode", "644");
 
-	const size_t maxLineLength =
-		std::min(getProperties().getProperty <size_t>("maxlinelength", 46), static_cast <size_t>(46));
+	const size_t maxLineLength = getMaxLineLength(getProperties());
 
 	size_t total = 0;
 	size_t inTotal = 0;
@@ -357,10 +364,16 @@ size_t uuEncoder::decode(
 
 size_t uuEncoder::getEncodedSize(const size_t n) const {
 
+	const size_t lineLength = getMaxLineLength(getProperties()) - 1;
+	const size_t lineCount = (n + lineLength - 1) / lineLength;
+
 	// 3 bytes of input provide 4 bytes of output.
-	// Count CRLF (2 bytes) for each line of 45 characters.
+	// Count length character and CRLF (3 bytes) for each line.
 	// Also reserve some space for header and footer.
-	return 200 + n * 3 + (n / 45) * 2;
+	return 200
+		+ getProperties().getProperty <string>("filename", "").length()
+		+ getProperties().getProperty <string>("mode", "644").length()
+		+ lineCount * (((lineLength + 2) / 3) * 4 + 3);
 }
 
 
-- 
2.43.0


From 0da558f72f438a3bad9e161f06c9c5b229757953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:47 +0000
Subject: [PATCH 005/118] fix: dot-stuffing filter added a dot after a '.'
 ending a buffer, and duplicated line breaks

---
 src/vmime/utility/filteredStream.cpp | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/vmime/utility/filteredStream.cpp b/src/vmime/utility/filteredStream.cpp
index d5ec17b..aacccae 100644
--- a/src/vmime/utility/filteredStream.cpp
+++ b/src/vmime/utility/filteredStream.cpp
@@ -154,15 +154,14 @@ void dotFilteredOutputStream::writeImpl(const byte_t* const data, const size_t c
 	const byte_t* end = data + count;
 	const byte_t* start = data;
 
-	if (m_previousChar == '.') {
+	// Content starts with a <DOT> which was alone in the previous buffer(s)
+	if (m_start && m_previousChar == '.') {
 
 		if (data[0] == '\n' || data[0] == '\r') {
-
 			m_stream.write(".", 1);  // extra <DOT>
-			m_stream.write(data, 1);
-
-			pos = data + 1;
 		}
+
+		m_start = false;
 	}
 
 	// Replace "\n." with "\n.."
@@ -195,7 +194,7 @@ void dotFilteredOutputStream::writeImpl(const byte_t* const data, const size_t c
 
 	m_stream.write(start, end - start);
 	m_previousChar = data[count - 1];
-	m_start = false;
+	m_start = (m_start && count == 1 && data[0] == '.');
 }
 
 
-- 
2.43.0


From 5cd8df99e6e000366ded7d8881e036810e643b7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:47 +0000
Subject: [PATCH 006/118] fix: CRLF-to-LF filter lost a trailing CR

---
 src/vmime/utility/filteredStream.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/vmime/utility/filteredStream.cpp b/src/vmime/utility/filteredStream.cpp
index aacccae..d9f45d4 100644
--- a/src/vmime/utility/filteredStream.cpp
+++ b/src/vmime/utility/filteredStream.cpp
@@ -281,9 +281,13 @@ void CRLFToLFFilteredOutputStream::writeImpl(const byte_t* const data, const siz
 
 void CRLFToLFFilteredOutputStream::flush() {
 
-	m_stream.flush();
+	// Write back the last '\r', if it was the last character of the buffer
+	if (m_previousChar == '\r') {
+		m_stream.write("\r", 1);
+		m_previousChar = '\0';
+	}
 
-	// TODO
+	m_stream.flush();
 }
 
 
-- 
2.43.0


From 765547508d943f55e0f1e1658f044997a836c11f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:52 +0000
Subject: [PATCH 007/118] fix: stop-sequence filter could not be read again
 after reset()

---
 src/vmime/utility/filteredStream.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/vmime/utility/filteredStream.hpp b/src/vmime/utility/filteredStream.hpp
index 2414c54..4dfc164 100644
--- a/src/vmime/utility/filteredStream.hpp
+++ b/src/vmime/utility/filteredStream.hpp
@@ -236,6 +236,7 @@ public:
 	void reset() {
 
 		m_found = 0;
+		m_eof = false;
 		m_stream.reset();
 	}
 
-- 
2.43.0


From 18058e0aa6961316c586cf5263a97c44927a6063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:52 +0000
Subject: [PATCH 008/118] fix: inputStreamStringAdapter read past the end of
 its region

---
 src/vmime/utility/inputStreamStringAdapter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vmime/utility/inputStreamStringAdapter.cpp b/src/vmime/utility/inputStreamStringAdapter.cpp
index bf09a9b..4de30f9 100644
--- a/src/vmime/utility/inputStreamStringAdapter.cpp
+++ b/src/vmime/utility/inputStreamStringAdapter.cpp
@@ -68,7 +68,7 @@ size_t inputStreamStringAdapter::read(byte_t* const data, const size_t count) {
 
 		const size_t remaining = m_end - m_pos;
 
-		std::copy(m_buffer.begin() + m_pos, m_buffer.end(), data);
+		std::copy(m_buffer.begin() + m_pos, m_buffer.begin() + m_end, data);
 		m_pos = m_end;
 
 		return remaining;
-- 
2.43.0


From 64cc0fba03ccfcf9b7702bc0be53a92ecea96def Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:38 +0000
Subject: [PATCH 009/118] fix: resetting a standard stream adapter did not
 rewind it after its end was reached

---
 src/vmime/utility/inputStreamAdapter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vmime/utility/inputStreamAdapter.cpp b/src/vmime/utility/inputStreamAdapter.cpp
index 28be103..c22bbf3 100644
--- a/src/vmime/utility/inputStreamAdapter.cpp
+++ b/src/vmime/utility/inputStreamAdapter.cpp
@@ -43,8 +43,8 @@ bool inputStreamAdapter::eof() const {
 void inputStreamAdapter::reset() {
 
 	m_stream.exceptions(std::ios_base::badbit);
-	m_stream.seekg(0, std::ios::beg);
 	m_stream.clear();
+	m_stream.seekg(0, std::ios::beg);
 }
 
 
-- 
2.43.0


From d1fd30afeab645d661eaeabf400dcbb3e8a29c03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:18 +0000
Subject: [PATCH 010/118] fix: searching or extracting from a stream that
 delivers less than asked for used stale data

---
 .../utility/parserInputStreamAdapter.cpp      | 26 ++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/src/vmime/utility/parserInputStreamAdapter.cpp b/src/vmime/utility/parserInputStreamAdapter.cpp
index 98bbe60..0ead36d 100644
--- a/src/vmime/utility/parserInputStreamAdapter.cpp
+++ b/src/vmime/utility/parserInputStreamAdapter.cpp
@@ -28,6 +28,26 @@ namespace vmime {
 namespace utility {
 
 
+// Reads exactly 'count' bytes, unless the end of the stream is reached before
+static size_t readFully(inputStream& is, byte_t* const data, const size_t count) {
+
+	size_t total = 0;
+
+	while (total < count && !is.eof()) {
+
+		const size_t read = is.read(data + total, count - total);
+
+		if (read == 0) {
+			break;
+		}
+
+		total += read;
+	}
+
+	return total;
+}
+
+
 parserInputStreamAdapter::parserInputStreamAdapter(const shared_ptr <seekableInputStream>& stream)
 	: m_stream(stream) {
 
@@ -70,7 +90,7 @@ const string parserInputStreamAdapter::extract(const size_t begin, const size_t
 
 		m_stream->seek(begin);
 
-		const size_t readBytes = m_stream->read(buffer, end - begin);
+		const size_t readBytes = readFully(*m_stream, buffer, end - begin);
 		buffer[readBytes] = '\0';
 
 		m_stream->seek(initialPos);
@@ -118,7 +138,7 @@ size_t parserInputStreamAdapter::findNext(
 		bool isEOF = false;
 
 		// Fill in initial buffer
-		findBufferLen = read(findBuffer, BUFFER_SIZE);
+		findBufferLen = readFully(*m_stream, findBuffer, BUFFER_SIZE);
 
 		while (findBufferLen != 0) {
 
@@ -148,7 +168,7 @@ size_t parserInputStreamAdapter::findNext(
 
 			} else {
 
-				const size_t bytesRead = read(findBuffer2, BUFFER_SIZE / 2);
+				const size_t bytesRead = readFully(*m_stream, findBuffer2, BUFFER_SIZE / 2);
 
 				if (bytesRead == 0) {
 					isEOF = true;
-- 
2.43.0


From ca673fe8040ce97f76449914c1402eb4bc5c1446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:24 +0000
Subject: [PATCH 011/118] fix: Base64 data cut between more than two encoded
 words lost digits; word parsing could end past its region

---
 src/vmime/word.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/vmime/word.cpp b/src/vmime/word.cpp
index a16b4b5..ba353a6 100644
--- a/src/vmime/word.cpp
+++ b/src/vmime/word.cpp
@@ -324,7 +324,7 @@ void word::parseWithState(
 				//const string::const_iterator encEnd = p;
 				const string::const_iterator dataPos = ++p; // skip '?'
 
-				for ( ; p != pend && !(*p == '?' && *(p + 1) == '=') ; ++p) {}
+				for ( ; p != pend && !(*p == '?' && p + 1 != pend && *(p + 1) == '=') ; ++p) {}
 
 				if (p != pend) {  // some data is specified
 
@@ -396,8 +396,8 @@ void word::parseWithState(
 							const size_t theoricalEncodedLen =
 								((decodedLen + ((decodedLen % 3) ? (3 - (decodedLen % 3)) : 0) ) / 3) * 4;
 
-							if (state && actualEncodedLen != theoricalEncodedLen) {
-								state->undecodedBytes.assign(dataPos + theoricalEncodedLen, dataEnd);
+							if (state && actualEncodedLen > theoricalEncodedLen) {
+								state->undecodedBytes.assign(encodedBuffer, theoricalEncodedLen, string::npos);
 							}
 						}
 
-- 
2.43.0


From 18b45bab0660a5b7951cc8eb462565f51016c07b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:27 +0000
Subject: [PATCH 012/118] fix: keep header field parsing inside the parsed
 region

---
 src/vmime/headerField.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/vmime/headerField.cpp b/src/vmime/headerField.cpp
index 077d3a2..32e8bda 100644
--- a/src/vmime/headerField.cpp
+++ b/src/vmime/headerField.cpp
@@ -123,7 +123,7 @@ shared_ptr <headerField> headerField::parseNext(
 				++pos;
 			}
 
-			if (buffer[pos] != ':') {
+			if (pos >= end || buffer[pos] != ':') {
 
 				// header field recovery is necessary, update flag in parsing context
 				ctx.setHeaderRecoveryNeeded(true);
@@ -248,7 +248,7 @@ shared_ptr <headerField> headerField::parseNext(
 				++pos;
 			}
 
-			if (buffer[pos] == '\n') {
+			if (pos < end && buffer[pos] == '\n') {
 				++pos;
 			}
 		}
-- 
2.43.0


From f6a684d27cf03b5e636bb5b82bd31af6e5ff3852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:18 +0000
Subject: [PATCH 013/118] fix: line breaks in values cannot add lines to a
 header

---
 src/vmime/headerField.cpp              | 39 +++++++++++++++++++++++++-
 src/vmime/headerField.hpp              | 13 +++++++++
 src/vmime/parameter.cpp                |  4 +--
 src/vmime/parameterizedHeaderField.cpp |  9 +++++-
 4 files changed, 61 insertions(+), 4 deletions(-)

diff --git a/src/vmime/headerField.cpp b/src/vmime/headerField.cpp
index 32e8bda..63fdbde 100644
--- a/src/vmime/headerField.cpp
+++ b/src/vmime/headerField.cpp
@@ -26,6 +26,8 @@
 
 #include "vmime/parserHelpers.hpp"
 
+#include "vmime/utility/outputStreamStringAdapter.hpp"
+
 #include "vmime/exception.hpp"
 
 
@@ -281,9 +283,44 @@ void headerField::generateImpl(
 	size_t* newLinePos
 ) const {
 
+	string value;
+	utility::outputStreamStringAdapter valueStream(value);
+
+	m_value->generate(ctx, valueStream, curLinePos + m_name.length() + 2, newLinePos);
+
 	os << m_name + ": ";
+	outputFoldedText(os, value);
+}
+
+
+void headerField::outputFoldedText(
+	utility::outputStream& os,
+	const string& value
+) {
+
+	size_t start = 0;
+
+	for (size_t pos = 0 ; pos < value.length() ; ++pos) {
+
+		const char_t c = value[pos];
+
+		if (c != '\r' && c != '\n') {
+			continue;
+		}
+
+		if (c == '\r' && pos + 2 < value.length() && value[pos + 1] == '\n' &&
+		    parserHelpers::isSpaceOrTab(value[pos + 2])) {
+
+			pos += 2;
+			continue;
+		}
+
+		os << value.substr(start, pos - start);
+		os << ' ';
+		start = pos + 1;
+	}
 
-	m_value->generate(ctx, os, curLinePos + m_name.length() + 2, newLinePos);
+	os << value.substr(start);
 }
 
 
diff --git a/src/vmime/headerField.hpp b/src/vmime/headerField.hpp
index dba5719..9d23c41 100644
--- a/src/vmime/headerField.hpp
+++ b/src/vmime/headerField.hpp
@@ -180,6 +180,19 @@ protected:
 	) const;
 
 
+	/** Outputs generated text into a field. A line break is only allowed
+	  * when it folds the line: any other CR or LF would end this field, and
+	  * start another one or the body, so it is replaced with a space.
+	  *
+	  * @param os output stream
+	  * @param value text to output
+	  */
+	static void outputFoldedText(
+		utility::outputStream& os,
+		const string& value
+	);
+
+
 	string m_name;
 	shared_ptr <headerFieldValue> m_value;
 };
diff --git a/src/vmime/parameter.cpp b/src/vmime/parameter.cpp
index 5cb5b75..e30d41b 100644
--- a/src/vmime/parameter.cpp
+++ b/src/vmime/parameter.cpp
@@ -360,7 +360,7 @@ void parameter::generateImpl(
 
 			default:
 
-				if (!parserHelpers::isAscii(value[i])) {
+				if (!parserHelpers::isPrint(value[i])) {
 					needQuotedPrintable = true;
 					needQuoting = true;
 				}
@@ -413,7 +413,7 @@ void parameter::generateImpl(
 				sevenBitStream << '\\' << value[i];  // escape 'x' with '\x'
 				pos += 2;
 
-			} else if (parserHelpers::isAscii(c)) {
+			} else if (parserHelpers::isPrint(c) || c == '\t') {
 
 				sevenBitStream << value[i];
 				++pos;
diff --git a/src/vmime/parameterizedHeaderField.cpp b/src/vmime/parameterizedHeaderField.cpp
index af98495..872598c 100644
--- a/src/vmime/parameterizedHeaderField.cpp
+++ b/src/vmime/parameterizedHeaderField.cpp
@@ -25,6 +25,8 @@
 #include "vmime/text.hpp"
 #include "vmime/parserHelpers.hpp"
 
+#include "vmime/utility/outputStreamStringAdapter.hpp"
+
 
 namespace vmime {
 
@@ -371,7 +373,12 @@ void parameterizedHeaderField::generateImpl(
 		os << "; ";
 		pos += 2;
 
-		(*it)->generate(ctx, os, pos, &pos);
+		string param;
+		utility::outputStreamStringAdapter paramStream(param);
+
+		(*it)->generate(ctx, paramStream, pos, &pos);
+
+		outputFoldedText(os, param);
 	}
 
 	if (newLinePos) {
-- 
2.43.0


From fe44677b442a0064da557b58d30a85a42a65c2a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:34 +0000
Subject: [PATCH 014/118] fix: parse RFC 2231 sections in any order, stay
 inside the field, keep empty values

---
 src/vmime/parameter.hpp                |  1 +
 src/vmime/parameterizedHeaderField.cpp | 46 ++++++++++++++++++--------
 2 files changed, 34 insertions(+), 13 deletions(-)

diff --git a/src/vmime/parameter.hpp b/src/vmime/parameter.hpp
index cd4ac49..09e9f22 100644
--- a/src/vmime/parameter.hpp
+++ b/src/vmime/parameter.hpp
@@ -75,6 +75,7 @@ public:
 	struct valueChunk {
 		bool encoded;
 		string data;
+		size_t section;
 	};
 
 #endif // VMIME_BUILDING_DOC
diff --git a/src/vmime/parameterizedHeaderField.cpp b/src/vmime/parameterizedHeaderField.cpp
index 872598c..8b7e4bf 100644
--- a/src/vmime/parameterizedHeaderField.cpp
+++ b/src/vmime/parameterizedHeaderField.cpp
@@ -131,7 +131,7 @@ void parameterizedHeaderField::parseImpl(
 			}
 		}
 
-		while (*p == ';') {
+		while (p < pend && *p == ';') {
 
 			// Skip ';'
 			++p;
@@ -171,7 +171,11 @@ void parameterizedHeaderField::parseImpl(
 				string value;
 
 				// -- this is a quoted-string
-				if (*p == '"') {
+				bool quoted = false;
+
+				if (p < pend && *p == '"') {
+
+					quoted = true;
 
 					// Skip '"'
 					++p;
@@ -212,6 +216,7 @@ void parameterizedHeaderField::parseImpl(
 									);
 
 									escape = true;
+									start = position + (p - pstart) + 1;
 									break;
 								}
 
@@ -251,7 +256,7 @@ void parameterizedHeaderField::parseImpl(
 				}
 
 				// Don't allow ill-formed parameters
-				if (attrStart != attrEnd && value.length()) {
+				if (attrStart != attrEnd && (quoted || value.length())) {
 
 					string name(buffer.begin() + attrStart, buffer.begin() + attrEnd);
 
@@ -269,23 +274,25 @@ void parameterizedHeaderField::parseImpl(
 
 					// Check for RFC-2231 multi-section parameters
 					const size_t star = name.find_last_of('*');
+					size_t section = 0;
 
 					if (star != string::npos) {
 
 						bool allDigits = true;
 
 						for (size_t i = star + 1 ; allDigits && (i < name.length()) ; ++i) {
+
 							allDigits = parserHelpers::isDigit(name[i]);
+
+							if (allDigits) {
+								section = section * 10 + (name[i] - '0');
+							}
 						}
 
 						if (allDigits) {
 							name.erase(name.begin() + star, name.end());
 							extended = true;
 						}
-
-						// NOTE: we ignore section number, and we suppose that
-						// the sequence is correct (ie. the sections appear
-						// in order: param*0, param*1...)
 					}
 
 					// Add/replace/modify the parameter
@@ -303,19 +310,32 @@ void parameterizedHeaderField::parseImpl(
 							info.start = attrStart;
 						}
 
-						// Append a new section for a multi-section parameter
-						parameter::valueChunk chunk;
-						chunk.encoded = encoded;
-						chunk.data = value;
+						// A normal parameter does not replace an extended one
+						if (extended || !info.extended) {
 
-						info.value.push_back(chunk);
-						info.end = position + (p - pstart);
+							// Add a new section for a multi-section parameter (the
+							// sections may appear in any order)
+							parameter::valueChunk chunk;
+							chunk.encoded = encoded;
+							chunk.data = value;
+							chunk.section = section;
+
+							std::vector <parameter::valueChunk>::iterator pos = info.value.end();
+
+							while (pos != info.value.begin() && (pos - 1)->section > section) {
+								--pos;
+							}
+
+							info.value.insert(pos, chunk);
+							info.end = position + (p - pstart);
+						}
 
 					} else {
 
 						parameter::valueChunk chunk;
 						chunk.encoded = encoded;
 						chunk.data = value;
+						chunk.section = section;
 
 						paramInfo info;
 						info.extended = extended;
-- 
2.43.0


From 7d4d2af2cfb74eb44ec7409165dcd721d16acd38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:34 +0000
Subject: [PATCH 015/118] fix: parameter values survive generation and parsing

---
 src/vmime/parameter.cpp | 67 +++++++++++++++++++++++++++++++++++++----
 1 file changed, 61 insertions(+), 6 deletions(-)

diff --git a/src/vmime/parameter.cpp b/src/vmime/parameter.cpp
index e30d41b..3d66425 100644
--- a/src/vmime/parameter.cpp
+++ b/src/vmime/parameter.cpp
@@ -197,7 +197,8 @@ void parameter::parse(
 
 				const char c = chunk.data[i];
 
-				if (c == '%' && i + 2 < len) {
+				if (c == '%' && i + 2 < len &&
+				    parserHelpers::isXDigit(chunk.data[i + 1]) && parserHelpers::isXDigit(chunk.data[i + 2])) {
 
 					unsigned int v = 0;
 
@@ -244,6 +245,19 @@ void parameter::parse(
 			}
 
 		// Simply copy data, as it is not encoded
+		} else if (chunk.data.find("=?") == string::npos) {
+
+			for (size_t i = 0 ; i < chunk.data.length() ; ++i) {
+
+				if (chunk.data[i] != '\r' && chunk.data[i] != '\n') {  // unfold
+					value << chunk.data[i];
+				}
+			}
+
+			if (ctx.getInternationalizedEmailSupport() && ch == charsets::US_ASCII) {
+				ch = charset(charsets::UTF_8);
+			}
+
 		} else {
 
 			// This syntax is non-standard (expressly prohibited
@@ -330,8 +344,16 @@ void parameter::generateImpl(
 	bool needQuotedPrintable = false;
 	size_t valueLength = 0;
 
+	if (value.empty()) {
+		needQuoting = true;  // a token has at least one character
+	}
+
 	// Use worst-case length name.length()+2 for 'name=' part of line
-	for (size_t i = 0 ; (i < value.length()) && (pos + name.length() + 2 + valueLength < ctx.getMaxLineLength() - 4) ; ++i, ++valueLength) {
+	for (size_t i = 0 ; i < value.length() ; ++i) {
+
+		if (pos + name.length() + 2 + valueLength < ctx.getMaxLineLength() - 4) {
+			++valueLength;
+		}
 
 		switch (value[i]) {
 
@@ -356,6 +378,12 @@ void parameter::generateImpl(
 			case '=':
 
 				needQuoting = true;
+
+				// What looks like an encoded word would be decoded when parsed
+				if (value[i] == '=' && i + 1 < value.length() && value[i + 1] == '?') {
+					needQuotedPrintable = true;
+				}
+
 				break;
 
 			default:
@@ -371,6 +399,22 @@ void parameter::generateImpl(
 
 	const bool cutValue = (valueLength != value.length());  // has the value been cut?
 
+	const bool encodeSevenBit =
+		(needQuotedPrintable || cutValue || !m_value->getLanguage().empty()) &&
+		genMode != generationContext::PARAMETER_VALUE_NO_ENCODING;
+
+	string encodedValue;
+
+	if (encodeSevenBit) {
+
+		utility::outputStreamStringAdapter encodedValueStream(encodedValue);
+		m_value->generate(encodedValueStream);
+
+		if (encodedValue != value) {
+			needQuoting = true;  // encoded words contain special characters
+		}
+	}
+
 	if (needQuoting) {
 
 		sevenBitStream << name << "=\"";
@@ -390,13 +434,21 @@ void parameter::generateImpl(
 	const bool alwaysEncode = m_value->getCharset().getRecommendedEncoding(recommendedEnc);
 	bool extended = alwaysEncode;
 
-	if ((needQuotedPrintable || cutValue || !m_value->getLanguage().empty()) &&
-	    genMode != generationContext::PARAMETER_VALUE_NO_ENCODING) {
+	if (encodeSevenBit) {
 
 		// Send the name in quoted-printable, so outlook express et.al.
 		// will understand the real filename
 		size_t oldLen = sevenBitBuffer.length();
-		m_value->generate(sevenBitStream);
+
+		for (size_t i = 0 ; i < encodedValue.length() ; ++i) {
+
+			if (encodedValue[i] == '"' || encodedValue[i] == '\\') {
+				sevenBitStream << '\\';  // words that are not encoded may need escaping
+			}
+
+			sevenBitStream << encodedValue[i];
+		}
+
 		pos += sevenBitBuffer.length() - oldLen;
 		extended = true;		// also send with RFC-2231 encoding
 
@@ -412,6 +464,7 @@ void parameter::generateImpl(
 
 				sevenBitStream << '\\' << value[i];  // escape 'x' with '\x'
 				pos += 2;
+				++curValueLength;
 
 			} else if (parserHelpers::isPrint(c) || c == '\t') {
 
@@ -518,6 +571,8 @@ void parameter::generateImpl(
 				case '\r':
 				case '\n':
 				case '%':
+				case '\'':
+				case '\\':
 				case '"':
 				case ';':
 				case ',':
@@ -566,7 +621,7 @@ void parameter::generateImpl(
 			}
 		}
 
-		if (!currentSection.empty()) {
+		if (!currentSection.empty() || sectionCount == 0) {
 
 			sectionText.push_back(currentSection);
 			sectionCount++;
-- 
2.43.0


From 83657b113d4a12e7fd5b474326bbb4625ef279f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:51 +0000
Subject: [PATCH 016/118] fix: internationalized domain names that are not
 valid UTF-8 are not read past their end

---
 src/vmime/charsetConverter_idna.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/vmime/charsetConverter_idna.cpp b/src/vmime/charsetConverter_idna.cpp
index db4e131..aaa9875 100644
--- a/src/vmime/charsetConverter_idna.cpp
+++ b/src/vmime/charsetConverter_idna.cpp
@@ -104,6 +104,11 @@ void charsetConverter_idna::convert(const string& in, string& out, status* st) {
 		string inUTF8;
 		charset::convert(in, inUTF8, m_source, vmime::charsets::UTF_8);
 
+		// The characters are read without checking them below
+		string validUTF8;
+		utf8::replace_invalid(inUTF8.begin(), inUTF8.end(), std::back_inserter(validUTF8));
+		inUTF8 = validUTF8;
+
 		const char* ch = inUTF8.c_str();
 		const char* end = inUTF8.c_str() + inUTF8.length();
 
-- 
2.43.0


From 67fae2dbe00abaf19f14811865a5d25e55d86884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:29 +0000
Subject: [PATCH 017/118] fix: bounds of a parsed e-mail address, '=' and
 Q-encoded text in local parts

---
 src/vmime/emailAddress.cpp | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/vmime/emailAddress.cpp b/src/vmime/emailAddress.cpp
index e687380..7f0e024 100644
--- a/src/vmime/emailAddress.cpp
+++ b/src/vmime/emailAddress.cpp
@@ -213,6 +213,7 @@ void emailAddress::parseImpl(
 	bool stop = false;
 	int commentLevel = 0;
 	bool localPartIsRFC2047 = false;
+	int questionMarkCount = 0;  // in RFC-2047 encoded word
 
 	while (p < pend && !stop) {
 
@@ -345,8 +346,6 @@ void emailAddress::parseImpl(
 
 					state = State_LocalPartMiddle;
 					localPart << '=';
-					localPart << c;
-					++p;
 				}
 
 				break;
@@ -395,7 +394,14 @@ void emailAddress::parseImpl(
 
 			case State_LocalPartRFC2047Middle:
 
-				if (c == '?') {
+				if (c == '?' && questionMarkCount < 2) {
+
+					// "?" before the encoding, or before the encoded text
+					++questionMarkCount;
+					localPart << c;
+					++p;
+
+				} else if (c == '?') {
 
 					state = State_LocalPartRFC2047MiddleQM;
 					++p;
@@ -554,10 +560,10 @@ void emailAddress::parseImpl(
 		m_domainName = word(domainNameFromIDNA(domainPart.str()), vmime::charsets::UTF_8);
 	}
 
-	setParsedBounds(position, p - pend);
+	setParsedBounds(position, position + (p - pstart));
 
 	if (newPosition) {
-		*newPosition = p - pend;
+		*newPosition = position + (p - pstart);
 	}
 }
 
-- 
2.43.0


From 5327d5dd2fa3251494e8342078ad05fd739fedba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:29 +0000
Subject: [PATCH 018/118] fix: quoted names, local parts and groups in
 addresses survive generation and parsing

---
 src/vmime/address.cpp      | 39 ++++++++++++++++++++++++++++++++------
 src/vmime/mailbox.cpp      | 32 ++++++++++++++++++++++++++++++-
 src/vmime/mailboxGroup.cpp | 30 ++++++++++++++++++++++++++---
 src/vmime/word.cpp         | 19 ++++++++++++++-----
 4 files changed, 105 insertions(+), 15 deletions(-)

diff --git a/src/vmime/address.cpp b/src/vmime/address.cpp
index 5703a38..cd40f12 100644
--- a/src/vmime/address.cpp
+++ b/src/vmime/address.cpp
@@ -79,6 +79,7 @@ shared_ptr <address> address::parseNext(
 	bool quoted = false;
 	bool quotedRFC2047 = false;
 	bool inRouteAddr = false;
+	bool inDomainLiteral = false;
 	bool isGroup = false;
 	bool stop = false;
 	int commentLevel = 0;
@@ -112,32 +113,58 @@ shared_ptr <address> address::parseNext(
 
 				case '"':
 
-					quoted = !quoted;
+					if (commentLevel == 0) {
+						quoted = !quoted;
+					}
+
 					break;
 
 				case '<':
 
-					inRouteAddr = true;
+					if (!quoted && commentLevel == 0) {
+						inRouteAddr = true;
+					}
+
 					break;
 
 				case '>':
 
-					inRouteAddr = false;
+					if (!quoted && commentLevel == 0) {
+						inRouteAddr = false;
+					}
+
 					break;
 
 				case '(':
 
-					++commentLevel;
+					if (!quoted) {
+						++commentLevel;
+					}
+
 					break;
 
 				case ')':
 
-					if (commentLevel > 0) {
+					if (!quoted && commentLevel > 0) {
 						--commentLevel;
 					}
 
 					break;
 
+				case '[':
+
+					// Domain literal
+					if (!quoted && commentLevel == 0 && pos > start && buffer[pos - 1] == '@') {
+						inDomainLiteral = true;
+					}
+
+					break;
+
+				case ']':
+
+					inDomainLiteral = false;
+					break;
+
 				case '=':
 
 					if (commentLevel == 0 && !quoted && !quotedRFC2047 && pos + 1 < end && buffer[pos + 1] == '?') {
@@ -158,7 +185,7 @@ shared_ptr <address> address::parseNext(
 
 				default:
 				{
-					if (commentLevel == 0 && !quoted && !quotedRFC2047 && !inRouteAddr) {
+					if (commentLevel == 0 && !quoted && !quotedRFC2047 && !inRouteAddr && !inDomainLiteral) {
 
 						switch (buffer[pos]) {
 
diff --git a/src/vmime/mailbox.cpp b/src/vmime/mailbox.cpp
index 23f46d9..d1259b4 100644
--- a/src/vmime/mailbox.cpp
+++ b/src/vmime/mailbox.cpp
@@ -102,6 +102,8 @@ void mailbox::parseImpl(
 		if (state == State_None) {
 			while (p < pend && parserHelpers::isSpace(*p))
 				++p;
+			if (p >= pend)
+				break;
 			if (*p == ',' || *p == ';')
 				/* Completely new mailbox -- stop parsing this one. */
 				break;
@@ -117,6 +119,8 @@ void mailbox::parseImpl(
 			state = State_Name;
 		} else if (state == State_String) {
 			bool escaped = false;
+			const size_t nameLength = name.size();
+			const char* const quotedStart = p - 1;
 
 			for (; p < pend; ++p) {
 				if (escaped) {
@@ -134,12 +138,38 @@ void mailbox::parseImpl(
 				}
 				name += *p;
 			}
+
+			if (state == State_None && p < pend && *p == '@') {
+				// Actually, this is the quoted local-part of an address
+				// and not a display name...
+				address.assign(quotedStart, p);
+				hold = name.size() - nameLength;
+				state = State_Address_Unbracketed;
+			}
 		} else if (state == State_Address_Bracketed) {
 			bool escaped = false;
+			bool quoted = false;
 			int comment = 0;
 
 			for (; p < pend; ++p) {
-				if (escaped) {
+				if (quoted) {
+					// Quoted local-part: unquoted when parsing the address
+					if (escaped) {
+						escaped = false;
+					} else if (*p == '\\') {
+						escaped = true;
+					} else if (*p == '"') {
+						quoted = false;
+					}
+					address += *p;
+					name += *p;
+					++hold;
+				} else if (!escaped && !comment && *p == '"') {
+					quoted = true;
+					address += *p;
+					name += *p;
+					++hold;
+				} else if (escaped) {
 					if (!comment) {
 						address += *p;
 						name += *p;
diff --git a/src/vmime/mailboxGroup.cpp b/src/vmime/mailboxGroup.cpp
index ff9c74f..f46e4c3 100644
--- a/src/vmime/mailboxGroup.cpp
+++ b/src/vmime/mailboxGroup.cpp
@@ -65,14 +65,31 @@ void mailboxGroup::parseImpl(
 	const char* const pstart = buffer.data() + position;
 	const char* p = pstart;
 
+	m_list.clear();
+	m_name.removeAllWords();
+
 	while (p < pend && parserHelpers::isSpace(*p)) {
 		++p;
 	}
 
 	string name;
+	bool quoted = false;
+
+	while (p < pend && (quoted || *p != ':')) {
+
+		if (*p == '"') {
+
+			quoted = !quoted;
+
+		} else {
+
+			if (quoted && *p == '\\' && p + 1 < pend) {
+				++p;  // escaped character
+			}
+
+			name += *p;
+		}
 
-	while (p < pend && *p != ':') {
-		name += *p;
 		++p;
 	}
 
@@ -130,7 +147,11 @@ void mailboxGroup::generateImpl(
 
 	for (size_t w = 0 ; !forceEncode && w < m_name.getWordCount() ; ++w) {
 
-		if (m_name.getWordAt(w)->getCharset() == charset(charsets::US_ASCII)) {
+		if (m_name.getWordAt(w)->getCharset() != charset(charsets::US_ASCII)) {
+
+			forceEncode = true;
+
+		} else {
 
 			const string& buffer = m_name.getWordAt(w)->getBuffer();
 
@@ -141,6 +162,9 @@ void mailboxGroup::generateImpl(
 
 					case ' ':
 					case '\t':
+					case '"':
+					case '\\':
+					case '[': case ']':
 					case ';':
 					case ',':
 					case '<': case '>':
diff --git a/src/vmime/word.cpp b/src/vmime/word.cpp
index ba353a6..ba82eb5 100644
--- a/src/vmime/word.cpp
+++ b/src/vmime/word.cpp
@@ -473,15 +473,24 @@ void word::generate(
 	// If possible and requested (with flag), quote the buffer (no folding is performed).
 	// Quoting is possible if and only if:
 	//  - the buffer does not need to be encoded
-	//  - the buffer does not contain quoting character (")
 	//  - there is enough remaining space on the current line to hold the whole buffer
 	} else if (!encodingNeeded &&
 	           (flags & text::QUOTE_IF_POSSIBLE) &&
-	           m_buffer.find('"') == string::npos &&
-	           (curLineLength + 2 /* 2 x " */ + m_buffer.length()) < ctx.getMaxLineLength()) {
+	           (curLineLength + 2 /* 2 x " */ + utility::stringUtils::quote(m_buffer, "\\\"", "\\").length()) < ctx.getMaxLineLength()) {
 
-		os << '"' << m_buffer << '"';
-		curLineLength += 2 + m_buffer.length();
+		const string quoted = utility::stringUtils::quote(m_buffer, "\\\"", "\\");
+
+		os << '"' << quoted << '"';
+		curLineLength += 2 + quoted.length();
+
+	// If quoting is not possible, special characters have to be encoded.
+	} else if (!encodingNeeded &&
+	           (flags & text::QUOTE_IF_POSSIBLE) &&
+	           (flags & text::FORCE_NO_ENCODING) == 0 &&
+	           utility::stringUtils::needQuoting(m_buffer, "\\\"(),:;<>@[]")) {
+
+		generate(ctx, os, curLinePos, newLinePos, flags | text::FORCE_ENCODING, state);
+		return;
 
 	// We will fold lines without encoding them.
 	} else if (!encodingNeeded) {
-- 
2.43.0


From 7dab96bad388857c7a62ce82b5671bd2c9ab68ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:44 +0000
Subject: [PATCH 019/118] fix: guess the boundary of a multipart body from
 bytes that were read

---
 src/vmime/body.cpp | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/src/vmime/body.cpp b/src/vmime/body.cpp
index 1ba7d42..0e4eaa5 100644
--- a/src/vmime/body.cpp
+++ b/src/vmime/body.cpp
@@ -189,19 +189,13 @@ void body::parseImpl(
 
 				if ((pos != npos) && (pos < end)) {
 
-					parser->seek(pos);
-
 					// Read some bytes after boundary separator
-					byte_t buffer[256];
-					const size_t bufferLen =
-						parser->read(buffer, std::min(end - pos, sizeof(buffer) / sizeof(buffer[0])));
-
-					buffer[sizeof(buffer) / sizeof(buffer[0]) - 1] = '\0';
+					const string buffer = parser->extract(pos, pos + std::min(end - pos, static_cast <size_t>(256)));
 
 					// Skip transport padding bytes (SPACE or HTAB), if any
 					size_t boundarySkip = 0;
 
-					while (boundarySkip < bufferLen && parserHelpers::isSpace(buffer[boundarySkip])) {
+					while (boundarySkip < buffer.length() && parserHelpers::isSpace(buffer[boundarySkip])) {
 						++boundarySkip;
 					}
 
@@ -211,9 +205,13 @@ void body::parseImpl(
 					byte_t boundaryBytes[100];
 					size_t boundaryLen = 0;
 
-					for (byte_t c = buffer[boundarySkip] ;
-					     boundaryLen < bufferLen && boundaryLen < 100 && !(c == '\r' || c == '\n') ;
-					     ++boundaryLen, c = buffer[boundarySkip + boundaryLen]) {
+					for ( ; boundarySkip + boundaryLen < buffer.length() && boundaryLen < 100 ; ++boundaryLen) {
+
+						const byte_t c = buffer[boundarySkip + boundaryLen];
+
+						if (c == '\r' || c == '\n') {
+							break;
+						}
 
 						boundaryBytes[boundaryLen] = c;
 					}
-- 
2.43.0


From 66f063f205d3ab98ffe01e5291c19b4cfb2b7774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:05 +0000
Subject: [PATCH 020/118] fix: delimiters of a multipart body lie inside it,
 and a line with more than a closing delimiter does not end it

---
 src/vmime/body.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/vmime/body.cpp b/src/vmime/body.cpp
index 0e4eaa5..8245087 100644
--- a/src/vmime/body.cpp
+++ b/src/vmime/body.cpp
@@ -75,7 +75,7 @@ size_t body::findNextBoundaryPosition(
 
 		pos = parser->findNext(boundary, pos);
 
-		if (pos == npos) {
+		if (pos == npos || pos + boundary.length() > end) {
 			break;  // not found
 		}
 
@@ -118,7 +118,7 @@ size_t body::findNextBoundaryPosition(
 		return pos;
 	}
 
-	return pos;
+	return npos;
 }
 
 
@@ -284,6 +284,8 @@ void body::parseImpl(
 				 * unspecified, so we might as well skip it to
 				 * facilitate broken mails.
 				 */
+				lastPart = false;
+
 				boundaryEnd += parser->skipIf([](char_t c) { return c != '\n'; }, end);
 				pos = findNextBoundaryPosition(parser, boundary, boundaryEnd, end, &boundaryStart, &boundaryEnd);
 				--index;
@@ -330,7 +332,7 @@ void body::parseImpl(
 		m_contents = make_shared <emptyContentHandler>();
 
 		// Last part was not found: recover from missing boundary
-		if (!lastPart && pos == npos) {
+		if (!lastPart && partStart < end) {
 
 			shared_ptr <bodyPart> part = m_part->createChildPart();
 
-- 
2.43.0


From e0ce38de3bd2617d48c96d33326994fe61bb2a7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:35 +0000
Subject: [PATCH 021/118] fix: what surrounds a message does not change where
 its multipart delimiters are

---
 src/vmime/body.cpp                             | 15 ++++++++++-----
 src/vmime/utility/parserInputStreamAdapter.hpp | 13 ++++++++++++-
 2 files changed, 22 insertions(+), 6 deletions(-)

diff --git a/src/vmime/body.cpp b/src/vmime/body.cpp
index 8245087..a64146e 100644
--- a/src/vmime/body.cpp
+++ b/src/vmime/body.cpp
@@ -94,13 +94,16 @@ size_t body::findNextBoundaryPosition(
 			continue;
 		}
 
-		parser->seek(pos + boundary.length());
+		// Boundary should be followed by a new line or a dash, or end the data
+		if (pos + boundary.length() < end) {
 
-		const byte_t next = parser->peekByte();
+			parser->seek(pos + boundary.length());
 
-		// Boundary should be followed by a new line or a dash
-		if (!isspace(next) && next != '-') {
-			continue;
+			const byte_t next = parser->peekByte();
+
+			if (!isspace(next) && next != '-') {
+				continue;
+			}
 		}
 
 		// Get rid of the "[CR]" just before "[LF]--", if any
@@ -184,6 +187,8 @@ void body::parseImpl(
 
 					if ((pos != npos) && (pos + 3 < end)) {
 						pos += 3;  // skip \n--
+					} else {
+						pos = npos;
 					}
 				}
 
diff --git a/src/vmime/utility/parserInputStreamAdapter.hpp b/src/vmime/utility/parserInputStreamAdapter.hpp
index e448d29..37b52ad 100644
--- a/src/vmime/utility/parserInputStreamAdapter.hpp
+++ b/src/vmime/utility/parserInputStreamAdapter.hpp
@@ -118,7 +118,18 @@ public:
 		try {
 
 			byte_t buffer[32];
-			const size_t readBytes = m_stream->read(buffer, length);
+			size_t readBytes = 0;
+
+			while (readBytes < length && !m_stream->eof()) {
+
+				const size_t count = m_stream->read(buffer + readBytes, length - readBytes);
+
+				if (count == 0) {
+					break;
+				}
+
+				readBytes += count;
+			}
 
 			m_stream->seek(initialPos);
 
-- 
2.43.0


From e42dc660d1dc359311945a77549ee570443d07ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:52 +0000
Subject: [PATCH 022/118] fix: the estimated size of a body is not smaller than
 what it generates

---
 src/vmime/body.cpp | 26 +++++++++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/src/vmime/body.cpp b/src/vmime/body.cpp
index a64146e..abf4125 100644
--- a/src/vmime/body.cpp
+++ b/src/vmime/body.cpp
@@ -536,9 +536,27 @@ size_t body::getGeneratedSize(const generationContext& ctx) {
 
 		size_t size = 0;
 
+		// Size of a boundary line: CRLF, "--", boundary, "--", CRLF (a boundary
+		// generated randomly is not longer than 70 characters)
+		size_t boundaryLength = std::max(m_boundary.length(), static_cast <size_t>(70));
+
+		if (m_part) {
+
+			shared_ptr <contentTypeField> ctf =
+				m_part->getHeader()->findField <contentTypeField>(fields::CONTENT_TYPE);
+
+			if (ctf && ctf->hasBoundary()) {
+				boundaryLength = std::max(boundaryLength, ctf->getBoundary().length());
+			}
+		}
+
+		const size_t boundaryLineLength = 2 + 2 + boundaryLength + 2 + 2;
+
 		// Size of parts and boundaries
+		size += boundaryLineLength;
+
 		for (size_t p = 0 ; p < getPartCount() ; ++p) {
-			size += 100;  // boundary, CRLF...
+			size += boundaryLineLength;
 			size += getPartAt(p)->getGeneratedSize(ctx);
 		}
 
@@ -555,7 +573,7 @@ size_t body::getGeneratedSize(const generationContext& ctx) {
 				text::FORCE_NO_ENCODING | text::NO_NEW_LINE_SEQUENCE
 			);
 
-			size += oss.str().size();
+			size += oss.str().size() + 2 /* CRLF */;
 		}
 
 		const text epilogText = getActualEpilogText(ctx);
@@ -570,7 +588,7 @@ size_t body::getGeneratedSize(const generationContext& ctx) {
 				text::FORCE_NO_ENCODING | text::NO_NEW_LINE_SEQUENCE
 			);
 
-			size += oss.str().size();
+			size += oss.str().size() + 2 /* CRLF */;
 		}
 
 		return size;
@@ -588,6 +606,8 @@ size_t body::getGeneratedSize(const generationContext& ctx) {
 			shared_ptr <utility::encoder::encoder> srcEncoder = m_contents->getEncoding().getEncoder();
 			shared_ptr <utility::encoder::encoder> dstEncoder = getEncoding().getEncoder();
 
+			dstEncoder->getProperties()["maxlinelength"] = ctx.getMaxLineLength();
+
 			return dstEncoder->getEncodedSize(srcEncoder->getDecodedSize(m_contents->getLength()));
 		}
 	}
-- 
2.43.0


From 0b5922b968186a8e0d7bc0b745ba5956fb04bc78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:35 +0000
Subject: [PATCH 023/118] fix: the estimated size of a field or parameter is
 not smaller than what it generates

---
 src/vmime/headerField.cpp              |  7 +++++-
 src/vmime/parameter.cpp                | 31 ++++----------------------
 src/vmime/parameterizedHeaderField.cpp | 12 ++--------
 3 files changed, 12 insertions(+), 38 deletions(-)

diff --git a/src/vmime/headerField.cpp b/src/vmime/headerField.cpp
index 63fdbde..67a2373 100644
--- a/src/vmime/headerField.cpp
+++ b/src/vmime/headerField.cpp
@@ -326,7 +326,12 @@ void headerField::outputFoldedText(
 
 size_t headerField::getGeneratedSize(const generationContext& ctx) {
 
-	return m_name.length() + 2 /* ": " */ + m_value->getGeneratedSize(ctx);
+	string buffer;
+	utility::outputStreamStringAdapter os(buffer);
+
+	generate(ctx, os);
+
+	return buffer.length();
 }
 
 
diff --git a/src/vmime/parameter.cpp b/src/vmime/parameter.cpp
index 3d66425..ac6e9c9 100644
--- a/src/vmime/parameter.cpp
+++ b/src/vmime/parameter.cpp
@@ -675,35 +675,12 @@ void parameter::generateImpl(
 
 size_t parameter::getGeneratedSize(const generationContext& ctx) {
 
-	const string& name = m_name;
-	const string& value = m_value->getBuffer();
-
-	const size_t bytesNeedingEncoding =
-		value.length() - utility::stringUtils::countASCIIchars(value.begin(), value.end());
-
-	const size_t valueLength = value.length();
-
-	// Compute generated length in the very worst case
-
-	// Non-encoded parameter + value (worst case: quoting + QP)
-	size_t len = name.length() + 1 /* = */ + 2 /* "" */ + 7 /* =?...?Q?...?= */
-		+ m_value->getCharset().getName().length() + valueLength + bytesNeedingEncoding * 2 + 1 /* ; */;
-
-	// Encoded parameter + value
-	const size_t maxEncodedValueLengthOnLine =
-		  ctx.getMaxLineLength() - 2 /* CRLF */ - NEW_LINE_SEQUENCE_LENGTH
-		- name.length() - 5 /* *00*= */ - 1 /* ; */;
-
-	const size_t encodedValueLength = (valueLength + bytesNeedingEncoding * 2)
-		+ m_value->getCharset().getName().length() + m_value->getLanguage().length() + 2 /* 2 x ' */;
-
-	const size_t numberOfSections = 1 /* worst case: generation starts at the end of a line */
-		+ std::max(size_t(1), encodedValueLength / maxEncodedValueLengthOnLine);
-
-	len += numberOfSections * (name.length() + 5 /* *00*= */ + 1 /* ; */ + 2 /* CRLF */ + NEW_LINE_SEQUENCE_LENGTH) + encodedValueLength;
+	std::ostringstream oss;
+	utility::outputStreamAdapter osa(oss);
 
-	return len;
+	generate(ctx, osa);
 
+	return oss.str().length();
 }
 
 
diff --git a/src/vmime/parameterizedHeaderField.cpp b/src/vmime/parameterizedHeaderField.cpp
index 8b7e4bf..8980c88 100644
--- a/src/vmime/parameterizedHeaderField.cpp
+++ b/src/vmime/parameterizedHeaderField.cpp
@@ -409,16 +409,8 @@ void parameterizedHeaderField::generateImpl(
 
 size_t parameterizedHeaderField::getGeneratedSize(const generationContext& ctx)
 {
-	size_t size = headerField::getGeneratedSize(ctx);
-
-	for (std::vector <shared_ptr <parameter> >::const_iterator
-	     it = m_params.begin() ; it != m_params.end() ; ++it) {
-
-		size += 2;  // "; "
-		size += (*it)->getGeneratedSize(ctx);
-	}
-
-	return size;
+	// Parameters are generated with the field
+	return headerField::getGeneratedSize(ctx);
 }
 
 
-- 
2.43.0


From 3121f514608e5d2bc2b7d394b6ec02ccf7ed94ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:56 +0000
Subject: [PATCH 024/118] fix: contents set already encoded declare their
 encoding

---
 src/vmime/body.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/vmime/body.cpp b/src/vmime/body.cpp
index abf4125..dfd1075 100644
--- a/src/vmime/body.cpp
+++ b/src/vmime/body.cpp
@@ -897,6 +897,15 @@ const shared_ptr <const contentHandler> body::getContents() const {
 void body::setContents(const shared_ptr <const contentHandler>& contents) {
 
 	m_contents = contents;
+
+	// Contents which are already encoded are generated with their own encoding
+	// if the header does not specify one: it has to be specified, then
+	if (m_part && contents && contents->isEncoded() &&
+	    contents->getEncoding() != vmime::encoding(encodingTypes::SEVEN_BIT) &&
+	    !m_part->getHeader()->hasField(fields::CONTENT_TRANSFER_ENCODING)) {
+
+		setEncoding(contents->getEncoding());
+	}
 }
 
 
@@ -905,7 +914,7 @@ void body::setContents(
 	const mediaType& type
 ) {
 
-	m_contents = contents;
+	setContents(contents);
 
 	setContentType(type);
 }
@@ -917,7 +926,7 @@ void body::setContents(
 	const charset& chset
 ) {
 
-	m_contents = contents;
+	setContents(contents);
 
 	setContentType(type, chset);
 }
-- 
2.43.0


From 1378f88760ca6e8cd5439c47adf83a0d3747b4bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:42 +0000
Subject: [PATCH 025/118] fix: parsed dates exist, do not depend on what was
 there before, and convert between any zones

---
 src/vmime/dateTime.cpp              | 101 +++++++++++++---------------
 src/vmime/utility/datetimeUtils.cpp |  10 +--
 2 files changed, 51 insertions(+), 60 deletions(-)

diff --git a/src/vmime/dateTime.cpp b/src/vmime/dateTime.cpp
index 9dde881..f8b7a49 100644
--- a/src/vmime/dateTime.cpp
+++ b/src/vmime/dateTime.cpp
@@ -75,6 +75,25 @@ static const char* monthNames[] = {
 	"Jul", "Aug", "Sep", "Oct", "Nov", "Dec"
 };
 
+// Parses a run of digits. The value does not overflow, however many there are.
+static int parseNumber(const char*& p, const char* const pend) {
+
+	int value = 0;
+
+	do {
+
+		if (value < 10000000) {
+			value = value * 10 + (*p - '0');
+		}
+
+		++p;
+
+	} while (p < pend && parserHelpers::isDigit(*p));
+
+	return value;
+}
+
+
 void datetime::parseImpl(
 	parsingContext& /* ctx */,
 	const string& buffer,
@@ -86,6 +105,17 @@ void datetime::parseImpl(
 	const char* const pend = buffer.data() + end;
 	const char* p = buffer.data() + position;
 
+	// What is missing from the text has a default value
+	m_year = 1970;
+	m_month = JANUARY;
+	m_day = 1;
+
+	m_hour = 0;
+	m_minute = 0;
+	m_second = 0;
+
+	m_zone = 0;
+
 	// Parse the date and time value
 	while (p < pend && parserHelpers::isSpace(*p)) ++p;
 
@@ -102,7 +132,7 @@ void datetime::parseImpl(
 
 		bool dayParsed = false;
 
-		if (parserHelpers::isAlpha(*p)) {
+		if (p < pend && parserHelpers::isAlpha(*p)) {
 
 			// Ill-formed date/time, this may be the month,
 			// so we skip day parsing (will be done later)
@@ -114,12 +144,7 @@ void datetime::parseImpl(
 			if (p < pend && parserHelpers::isDigit(*p)) {
 
 				// Month day
-				int day = 0;
-
-				do {
-					day = day * 10 + (*p - '0');
-					++p;
-				} while (p < pend && parserHelpers::isDigit(*p));
+				const int day = parseNumber(p, pend);
 
 				m_day = (day >= 1 && day <= 31) ? day : 1;
 
@@ -240,7 +265,7 @@ void datetime::parseImpl(
 
 			m_month = JANUARY;
 
-			if (parserHelpers::isDigit(*p)) {
+			if (p < pend && parserHelpers::isDigit(*p)) {
 
 				// Here, we expected a month, but it maybe
 				// a ill-formed date, so try to parse a year
@@ -257,12 +282,7 @@ void datetime::parseImpl(
 		if (!dayParsed && p < pend && parserHelpers::isDigit(*p)) {
 
 			// Month day
-			int day = 0;
-
-			do {
-				day = day * 10 + (*p - '0');
-				++p;
-			} while (p < pend && parserHelpers::isDigit(*p));
+			const int day = parseNumber(p, pend);
 
 			m_day = (day >= 1 && day <= 31) ? day : 1;
 
@@ -282,12 +302,7 @@ void datetime::parseImpl(
 			} else {
 
 				// Year
-				int year = 0;
-
-				do {
-					year = year * 10 + (*p - '0');
-					++p;
-				} while (p < pend && parserHelpers::isDigit(*p));
+				const int year = parseNumber(p, pend);
 
 				if (year < 70)         m_year = year + 2000;
 				else if (year < 1000)  m_year = year + 1900;
@@ -309,12 +324,7 @@ void datetime::parseImpl(
 		if (p < pend && parserHelpers::isDigit(*p)) {
 
 			// Hour
-			int hour = 0;
-
-			do {
-				hour = hour * 10 + (*p - '0');
-				++p;
-			} while (p < pend && parserHelpers::isDigit(*p));
+			const int hour = parseNumber(p, pend);
 
 			m_hour = (hour >= 0 && hour <= 23) ? hour : 0;
 
@@ -329,12 +339,7 @@ void datetime::parseImpl(
 				if (p < pend && parserHelpers::isDigit(*p)) {
 
 					// Minute
-					int minute = 0;
-
-					do {
-						minute = minute * 10 + (*p - '0');
-						++p;
-					} while (p < pend && parserHelpers::isDigit(*p));
+					const int minute = parseNumber(p, pend);
 
 					m_minute = (minute >= 0 && minute <= 59) ? minute : 0;
 
@@ -349,12 +354,7 @@ void datetime::parseImpl(
 						if (p < pend && parserHelpers::isDigit(*p)) {
 
 							// Second
-							int second = 0;
-
-							do {
-								second = second * 10 + (*p - '0');
-								++p;
-							} while (p < pend && parserHelpers::isDigit(*p));
+							const int second = parseNumber(p, pend);
 
 							m_second = (second >= 0 && second <= 59) ? second : 0;
 
@@ -396,15 +396,12 @@ void datetime::parseImpl(
 			++p;
 
 			// Zone offset (in hour/minutes)
-			int offset = 0;
-
-			do {
-				offset = offset * 10 + (*p - '0');
-				++p;
-			} while (p < pend && parserHelpers::isDigit(*p));
+			const int offset = parseNumber(p, pend);
 
-			const int hourOff = offset / 100;
-			const int minOff = offset % 100;
+			// An offset is at most 99 hours and 59 minutes
+			const bool validOffset = (offset / 100 <= 99 && offset % 100 <= 59);
+			const int hourOff = validOffset ? offset / 100 : 0;
+			const int minOff = validOffset ? offset % 100 : 0;
 
 			if (sign == '+') {
 				m_zone = hourOff * 60 + minOff;
@@ -570,17 +567,11 @@ void datetime::parseImpl(
 			m_zone = 0;
 		}
 
-	} else {
+	}
 
-		m_year = 1970;
-		m_month = JANUARY;
+	// The day has to exist in the month
+	if (m_day > utility::datetimeUtils::getDaysInMonth(m_year, m_month)) {
 		m_day = 1;
-
-		m_hour = 0;
-		m_minute = 0;
-		m_second = 0;
-
-		m_zone = 0;
 	}
 
 	setParsedBounds(position, end);
diff --git a/src/vmime/utility/datetimeUtils.cpp b/src/vmime/utility/datetimeUtils.cpp
index b1a6c55..5ce213e 100644
--- a/src/vmime/utility/datetimeUtils.cpp
+++ b/src/vmime/utility/datetimeUtils.cpp
@@ -109,7 +109,7 @@ static inline void addHoursAndMinutes(datetime& d, const int h, const int m) {
 
 	d.setHour(d.getHour() + h);
 
-	if (d.getHour() >= 24) {
+	while (d.getHour() >= 24) {
 		d.setHour(d.getHour() - 24);
 		nextDay(d);
 	}
@@ -125,11 +125,11 @@ static inline void substractHoursAndMinutes(datetime& d, const int h, const int
 		d.setMinute(d.getMinute() - m);
 	}
 
-	if (h > d.getHour()) {
-		d.setHour(24 - (h - d.getHour()));
+	d.setHour(d.getHour() - h);
+
+	while (d.getHour() < 0) {
+		d.setHour(d.getHour() + 24);
 		prevDay(d);
-	} else {
-		d.setHour(d.getHour() - h);
 	}
 }
 
-- 
2.43.0


From 86a89f21c838ee9d20cd3738c49dcc2cc5758f46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:29 +0000
Subject: [PATCH 026/118] fix: URLs keep a password without a user name, any
 host name, and the '@' of a protocol

---
 src/vmime/utility/url.cpp      | 19 ++++++++++---------
 src/vmime/utility/urlUtils.cpp |  5 +++--
 2 files changed, 13 insertions(+), 11 deletions(-)

diff --git a/src/vmime/utility/url.cpp b/src/vmime/utility/url.cpp
index f0d9c65..ef8a882 100644
--- a/src/vmime/utility/url.cpp
+++ b/src/vmime/utility/url.cpp
@@ -113,7 +113,7 @@ const string url::build() const {
 
 	oss << m_protocol << "://";
 
-	if (!m_username.empty()) {
+	if (!m_username.empty() || !m_password.empty()) {
 
 		oss << urlUtils::encode(m_username);
 
@@ -168,7 +168,7 @@ const string url::build() const {
 
 static bool extractHostIPv6(string& hostPart, string& host, string& port) {
 
-	if (hostPart[0] != '[') {
+	if (hostPart.empty() || hostPart[0] != '[') {
 		return false;
 	}
 
@@ -178,14 +178,15 @@ static bool extractHostIPv6(string& hostPart, string& host, string& port) {
 		return false;
 	}
 
-	host.assign(&hostPart[1], len - 1);
+	if (len + 1 != hostPart.length() && hostPart[len + 1] != ':') {
+		return false;
+	}
+
+	host.assign(hostPart, 1, len - 1);
 
-	if (hostPart[len + 1] == '\0') {
+	if (len + 1 == hostPart.length()) {
 		return true;
 	}
-	if (hostPart[len + 1] != ':') {
-		return false;
-	}
 
 	port = hostPart.substr(len + 2);
 
@@ -245,7 +246,7 @@ void url::parse(const string& str) {
 
 	} else {
 
-		if (atPos != string::npos && atPos < slashPos) {
+		if (atPos != string::npos && atPos >= protoEnd + 3 && atPos < slashPos) {
 
 			const string userPart(str.begin() + protoEnd + 3, str.begin() + atPos);
 			const size_t colonPos = userPart.find(':');
@@ -283,7 +284,7 @@ void url::parse(const string& str) {
 		// Internet Scheme Syntax (and this parser demands it by only
 		// allowing URLs with "://" above), the separator is not
 		// actually part of the path.
-		auto pathStart = slashPos + 1;
+		auto pathStart = (str[slashPos] == '/') ? slashPos + 1 : slashPos;
 		path = utility::stringUtils::trim(string(str.begin() + pathStart, str.end()));
 
 	}
diff --git a/src/vmime/utility/urlUtils.cpp b/src/vmime/utility/urlUtils.cpp
index ca0f9c6..40183c6 100644
--- a/src/vmime/utility/urlUtils.cpp
+++ b/src/vmime/utility/urlUtils.cpp
@@ -68,11 +68,12 @@ const string urlUtils::encode(const string& s) {
 
 const string urlUtils::encodeHost(const string& s) {
 
-	if (s.size() == 0) {
+	// Only IPv6 addresses are written between square brackets
+	if (s.find(':') == string::npos) {
 		return encode(s);
 	}
 
-	for (auto it = s.begin() + 1 ; it != s.end() - 1 ; ++it) {
+	for (auto it = s.begin() ; it != s.end() ; ++it) {
 		if (!parserHelpers::isXDigit(*it) && *it != ':') {
 			return encode(s);
 		}
-- 
2.43.0


From 6a20c84b72f4350f6b6b13ef7226369d504446cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:19 +0000
Subject: [PATCH 027/118] fix: renaming a parent only changes paths under it;
 append a path to itself; multi-character separators

---
 src/vmime/utility/path.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/vmime/utility/path.cpp b/src/vmime/utility/path.cpp
index 0c70f11..3120e4b 100644
--- a/src/vmime/utility/path.cpp
+++ b/src/vmime/utility/path.cpp
@@ -76,9 +76,10 @@ path path::operator/(const component& c) const {
 path& path::operator/=(const path& p) {
 
 	const list::size_type size = m_list.size();
+	const list::size_type count = p.m_list.size();
 
-	m_list.resize(size + p.m_list.size());
-	std::copy(p.m_list.begin(), p.m_list.end(), m_list.begin() + size);
+	m_list.resize(size + count);
+	std::copy(p.m_list.begin(), p.m_list.begin() + count, m_list.begin() + size);
 
 	return *this;
 }
@@ -234,8 +235,9 @@ void path::renameParent(const path& oldPath, const path& newPath) {
 		equal = (m_list[i].isEquivalent(oldPath.m_list[i]));
 	}
 
-	if (i != oldPath.m_list.size())
+	if (!equal) {
 		return;
+	}
 
 	list newList;
 
@@ -295,7 +297,7 @@ path path::fromString(const string& str, const string& sep, const charset& cset)
 		   p.appendComponent(component(comp, cset));
 		}
 
-		start = end + 1;
+		start = end + sep.length();
 
 	} while (end != string::npos);
 
-- 
2.43.0


From da85d4cca1285c3bb54bce9eec6243578ea2685d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:32 +0000
Subject: [PATCH 028/118] fix: folder names with '+', '~', '\' or characters
 outside of the BMP, and separators next to encoded characters, in modified
 UTF-7

---
 src/vmime/net/imap/IMAPUtils.cpp | 184 ++++++++++++++++++++++---------
 1 file changed, 130 insertions(+), 54 deletions(-)

diff --git a/src/vmime/net/imap/IMAPUtils.cpp b/src/vmime/net/imap/IMAPUtils.cpp
index 80e8487..09567aa 100644
--- a/src/vmime/net/imap/IMAPUtils.cpp
+++ b/src/vmime/net/imap/IMAPUtils.cpp
@@ -209,7 +209,17 @@ const string IMAPUtils::toModifiedUTF7(
 		const unsigned char c = cvt[i];
 
 		// Replace hierarchy separator with an equivalent UTF-7 Base64 sequence
-		if (!base64 && c == hierarchySeparator) {
+		if (c == hs) {
+
+			if (base64) {
+
+				if (k > 10) {
+					out += base64alphabet[b];
+				}
+
+				out += '-';
+				base64 = false;
+			}
 
 			out += "&" + hsUTF7 + "-";
 
@@ -271,20 +281,34 @@ const string IMAPUtils::toModifiedUTF7(
 				k = 10;
 			}
 
+			// A character outside of the BMP is encoded as two surrogates
+			int units[2] = { ch, 0 };
+			int unitCount = 1;
+
 			if (ch & ~0xffff) {
-				ch = 0xfffe;
+
+				if (ch > 0x10ffff) {
+					return "";  // error
+				}
+
+				units[0] = 0xd800 | ((ch - 0x10000) >> 10);
+				units[1] = 0xdc00 | ((ch - 0x10000) & 0x3ff);
+				unitCount = 2;
 			}
 
-			out += base64alphabet[b | ch >> k];
+			for (int u = 0 ; u < unitCount ; ++u) {
 
-			k -= 6;
+				out += base64alphabet[b | units[u] >> k];
 
-			for ( ; k >= 0 ; k -= 6) {
-				out += base64alphabet[(ch >> k) & 0x3f];
-			}
+				k -= 6;
+
+				for ( ; k >= 0 ; k -= 6) {
+					out += base64alphabet[(units[u] >> k) & 0x3f];
+				}
 
-			b = (ch << (-k)) & 0x3f;
-			k += 16;
+				b = (units[u] << (-k)) & 0x3f;
+				k += 16;
+			}
 
 		} else {
 
@@ -319,77 +343,129 @@ const string IMAPUtils::toModifiedUTF7(
 }
 
 
+// Appends a character to an UTF-8 string.
+static void appendUTF8(string& out, const unsigned int ch) {
+
+	if (ch < 0x80) {
+
+		out += static_cast <char>(ch);
+
+	} else if (ch < 0x800) {
+
+		out += static_cast <char>(0xc0 | (ch >> 6));
+		out += static_cast <char>(0x80 | (ch & 0x3f));
+
+	} else if (ch < 0x10000) {
+
+		out += static_cast <char>(0xe0 | (ch >> 12));
+		out += static_cast <char>(0x80 | ((ch >> 6) & 0x3f));
+		out += static_cast <char>(0x80 | (ch & 0x3f));
+
+	} else {
+
+		out += static_cast <char>(0xf0 | (ch >> 18));
+		out += static_cast <char>(0x80 | ((ch >> 12) & 0x3f));
+		out += static_cast <char>(0x80 | ((ch >> 6) & 0x3f));
+		out += static_cast <char>(0x80 | (ch & 0x3f));
+	}
+}
+
+
 const folder::path::component IMAPUtils::fromModifiedUTF7(const string& text) {
 
-	// Transcode from modified UTF-7 (RFC-2060).
+	// Decode modified UTF-7 (RFC-2060). This is not done by converting from UTF-7,
+	// in which '+', '~' and '\\' do not represent themselves.
 	string out;
 	out.reserve(text.length());
 
-	bool inB64sequence = false;
-	bool plusOutput = false;
-	unsigned char prev = 0;
+	for (size_t i = 0, len = text.length() ; i < len ; ) {
 
-	for (string::const_iterator it = text.begin() ; it != text.end() ; ++it) {
+		const char c = text[i++];
 
-		const unsigned char c = *it;
+		if (c != '&') {
 
-		switch (c) {
+			out += c;
 
-			// Start of Base64 sequence
-			case '&': {
+			// "+-" stands for "+", as in UTF-7
+			if (c == '+' && i < len && text[i] == '-') {
+				++i;
+			}
 
-				if (!inB64sequence) {
-					inB64sequence = true;
-					plusOutput = false;
-				} else {
-					out += '&';
-				}
+			continue;
+		}
 
-				break;
-			}
-			// End of Base64 sequence (or "&-" --> "&")
-			case '-': {
+		// "&-" --> "&"
+		if (i < len && text[i] == '-') {
 
-				if (inB64sequence && prev == '&') {  // special case "&-" --> "&"
-					out += '&';
-				} else {
-					out += '-';
-				}
+			out += '&';
+			++i;
+			continue;
+		}
 
-				inB64sequence = false;
-				break;
+		// Base64 sequence: big-endian UTF-16
+		unsigned int bits = 0;
+		int bitCount = 0;
+		unsigned int high = 0;  // high surrogate waiting for the low one
+
+		for ( ; i < len ; ++i) {
+
+			const char d = text[i];
+			unsigned int value;
+
+			if (d >= 'A' && d <= 'Z') value = d - 'A';
+			else if (d >= 'a' && d <= 'z') value = d - 'a' + 26;
+			else if (d >= '0' && d <= '9') value = d - '0' + 52;
+			else if (d == '+') value = 62;
+			else if (d == ',') value = 63;
+			else break;
+
+			bits = ((bits << 6) | value) & 0x3fffff;
+			bitCount += 6;
+
+			if (bitCount < 16) {
+				continue;
 			}
-			// ',' is used instead of '/' in modified Base64
-			case ',': {
 
-				if (inB64sequence && !plusOutput) {
-					out += '+';
-					plusOutput = true;
+			bitCount -= 16;
+
+			const unsigned int unit = (bits >> bitCount) & 0xffff;
+
+			if (unit >= 0xd800 && unit <= 0xdbff) {
+
+				if (high != 0) {
+					appendUTF8(out, 0xfffd);
 				}
 
-				out += (inB64sequence ? '/' : ',');
-				break;
-			}
-			default: {
+				high = unit;
+
+			} else if (unit >= 0xdc00 && unit <= 0xdfff) {
+
+				appendUTF8(out, high == 0 ? 0xfffd : 0x10000 + ((high - 0xd800) << 10) + (unit - 0xdc00));
+				high = 0;
 
-				if (inB64sequence && !plusOutput) {
-					out += '+';
-					plusOutput = true;
+			} else {
+
+				if (high != 0) {
+					appendUTF8(out, 0xfffd);
 				}
 
-				out += c;
-				break;
+				appendUTF8(out, unit);
+				high = 0;
 			}
 		}
 
-		prev = c;
+		if (high != 0) {
+			appendUTF8(out, 0xfffd);
+		}
+
+		// End of Base64 sequence
+		if (i < len && text[i] == '-') {
+			++i;
+		}
 	}
 
 	// Store it as UTF-8 by default
-	string cvt;
-	charset::convert(out, cvt, charset(charsets::UTF_7), charset(charsets::UTF_8));
-
-	return folder::path::component(cvt, charset(charsets::UTF_8));
+	return folder::path::component(out, charset(charsets::UTF_8));
 }
 
 
-- 
2.43.0


From 8c24148e6cb24192380a8cca0a073fabee9e443d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:10 +0000
Subject: [PATCH 029/118] fix: sets of no or of huge message UIDs, and
 assignment of message sets

---
 src/vmime/net/messageSet.cpp | 38 ++++++++++++++++++++++++------------
 src/vmime/net/messageSet.hpp |  2 ++
 2 files changed, 28 insertions(+), 12 deletions(-)

diff --git a/src/vmime/net/messageSet.cpp b/src/vmime/net/messageSet.cpp
index fe2d645..5d6d0c1 100644
--- a/src/vmime/net/messageSet.cpp
+++ b/src/vmime/net/messageSet.cpp
@@ -178,6 +178,15 @@ messageSet::messageSet(const messageSet& other)
 }
 
 
+messageSet& messageSet::operator=(const messageSet& other) {
+
+	messageSet copy(other);
+	m_ranges.swap(copy.m_ranges);
+
+	return *this;
+}
+
+
 messageSet::~messageSet() {
 
 	for (size_t i = 0, n = m_ranges.size() ; i < n ; ++i) {
@@ -262,7 +271,9 @@ messageSet messageSet::byNumber(const std::vector <size_t>& numbers) {
 		}
 	}
 
-	set.m_ranges.push_back(new numberMessageRange(rangeStart, previous));
+	if (!sortedNumbers.empty()) {
+		set.m_ranges.push_back(new numberMessageRange(rangeStart, previous));
+	}
 
 	return set;
 }
@@ -294,15 +305,15 @@ messageSet messageSet::byUID(const std::vector <message::uid>& uids) {
 	for (size_t i = 0, n = uids.size() ; i < n ; ++i) {
 
 		const string uid = uids[i];
-		int numericUID = 0;
+		unsigned long long numericUID = 0;
 
 		const char* p = uid.c_str();
 
-		for ( ; *p >= '0' && *p <= '9' ; ++p) {
-			numericUID = (numericUID * 10) + (*p - '0');
+		for ( ; *p >= '0' && *p <= '9' && numericUID <= 0xffffffffULL ; ++p) {
+			numericUID = (numericUID * 10) + static_cast <unsigned int>(*p - '0');
 		}
 
-		if (*p != '\0') {
+		if (p != uid.c_str() + uid.length() || uid.empty() || uid[0] == '0' || numericUID > 0xffffffffULL) {
 
 			messageSet set;
 
@@ -314,7 +325,7 @@ messageSet messageSet::byUID(const std::vector <message::uid>& uids) {
 			return set;
 		}
 
-		numericUIDs.push_back(numericUID);
+		numericUIDs.push_back(static_cast <vmime_uint32>(numericUID));
 	}
 
 	// Sort a copy of the list
@@ -364,12 +375,15 @@ messageSet messageSet::byUID(const std::vector <message::uid>& uids) {
 		}
 	}
 
-	set.m_ranges.push_back(
-		new UIDMessageRange(
-			utility::stringUtils::toString(rangeStart),
-			utility::stringUtils::toString(previous)
-		)
-	);
+	if (!sortedUIDs.empty()) {
+
+		set.m_ranges.push_back(
+			new UIDMessageRange(
+				utility::stringUtils::toString(rangeStart),
+				utility::stringUtils::toString(previous)
+			)
+		);
+	}
 
 	return set;
 }
diff --git a/src/vmime/net/messageSet.hpp b/src/vmime/net/messageSet.hpp
index 848c4c9..0fa6674 100644
--- a/src/vmime/net/messageSet.hpp
+++ b/src/vmime/net/messageSet.hpp
@@ -215,6 +215,8 @@ public:
 
 	messageSet(const messageSet& other);
 
+	messageSet& operator=(const messageSet& other);
+
 	/** Constructs an empty set.
 	  *
 	  * @return new empty message set
-- 
2.43.0


From d4b6820f1997a4546b8ebfd27f38b0f4c7995502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:25 +0000
Subject: [PATCH 030/118] fix: a '-' in a maildir message identifier is not a
 flags separator

---
 src/vmime/net/maildir/maildirUtils.cpp | 37 +++++++++++++++++---------
 1 file changed, 25 insertions(+), 12 deletions(-)

diff --git a/src/vmime/net/maildir/maildirUtils.cpp b/src/vmime/net/maildir/maildirUtils.cpp
index 9942e56..a6a4352 100644
--- a/src/vmime/net/maildir/maildirUtils.cpp
+++ b/src/vmime/net/maildir/maildirUtils.cpp
@@ -68,17 +68,34 @@ bool maildirUtils::isMessageFile(const utility::file& file) {
 // characters when reading file names.
 
 
-const utility::file::path::component maildirUtils::extractId(
-	const utility::file::path::component& filename
-) {
+// Returns the position of the character that separates the unique identifier
+// from the flags, or string::npos if the file name has no flags. As a dash may
+// also appear in the unique identifier (eg. in the host name), it is a separator
+// only when followed with "2,".
+static size_t findFlagsSeparator(const string& filename) {
 
-	size_t sep = filename.getBuffer().rfind(':');  // try colon
+	size_t sep = filename.rfind(':');  // try colon
 
 	if (sep == string::npos) {
-		sep = filename.getBuffer().rfind('-');  // try dash (Windows)
-		if (sep == string::npos) return (filename);
+
+		sep = filename.rfind('-');  // try dash (Windows)
+
+		if (sep != string::npos && filename.compare(sep + 1, 2, "2,") != 0) {
+			sep = string::npos;
+		}
 	}
 
+	return sep;
+}
+
+
+const utility::file::path::component maildirUtils::extractId(
+	const utility::file::path::component& filename
+) {
+
+	const size_t sep = findFlagsSeparator(filename.getBuffer());
+	if (sep == string::npos) return (filename);
+
 	return utility::path::component(
 		string(filename.getBuffer().begin(), filename.getBuffer().begin() + sep)
 	);
@@ -87,12 +104,8 @@ const utility::file::path::component maildirUtils::extractId(
 
 int maildirUtils::extractFlags(const utility::file::path::component& comp) {
 
-	size_t sep = comp.getBuffer().rfind(':');  // try colon
-
-	if (sep == string::npos) {
-		sep = comp.getBuffer().rfind('-');  // try dash (Windows)
-		if (sep == string::npos) return 0;
-	}
+	const size_t sep = findFlagsSeparator(comp.getBuffer());
+	if (sep == string::npos) return 0;
 
 	const string flagsString(comp.getBuffer().begin() + sep + 1, comp.getBuffer().end());
 	const size_t count = flagsString.length();
-- 
2.43.0


From 8682c50622e89da059de243e4b08e50182307c2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:25 +0000
Subject: [PATCH 031/118] fix: reject KMail folder names that designate
 something out of the store

---
 .../net/maildir/format/kmailMaildirFormat.cpp   | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/vmime/net/maildir/format/kmailMaildirFormat.cpp b/src/vmime/net/maildir/format/kmailMaildirFormat.cpp
index 4eb89e8..7f18b62 100644
--- a/src/vmime/net/maildir/format/kmailMaildirFormat.cpp
+++ b/src/vmime/net/maildir/format/kmailMaildirFormat.cpp
@@ -131,6 +131,19 @@ const utility::file::path kmailMaildirFormat::folderPathToFileSystemPath(
 	// Root path
 	utility::file::path fsPath = getContext()->getStore()->getFileSystemPath();
 
+	// Folder names are used as directory names: do not let them designate
+	// something out of the root, nor the directories used for another folder
+	for (size_t i = 0, n = path.getSize() ; i < n ; ++i) {
+
+		const string& name = path[i].getBuffer();
+
+		if (name.empty() || name[0] == '.' ||
+		    name.find('/') != string::npos || name.find('\0') != string::npos) {
+
+			throw exceptions::invalid_folder_name();
+		}
+	}
+
 	const size_t pathSize = path.getSize();
 	const size_t count = (type == CONTAINER_DIRECTORY
 		? pathSize : (pathSize >= 1 ? pathSize - 1 : 0));
@@ -305,6 +318,10 @@ bool kmailMaildirFormat::folderHasSubfolders(const folder::path& path) const {
 		folderPathToFileSystemPath(path, CONTAINER_DIRECTORY)
 	);
 
+	if (!rootDir->exists()) {
+		return false;  // no sub-folder
+	}
+
 	shared_ptr <utility::fileIterator> it = rootDir->getFiles();
 
 	while (it->hasMoreElements()) {
-- 
2.43.0


From 3ae1e3bcf35bb88e4e1c51d9931a8580c18b414b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:25 +0000
Subject: [PATCH 032/118] fix: Courier folder names: modified UTF-7, siblings
 with a common prefix, empty names

---
 .../maildir/format/courierMaildirFormat.cpp   | 261 ++++++++++++------
 1 file changed, 176 insertions(+), 85 deletions(-)

diff --git a/src/vmime/net/maildir/format/courierMaildirFormat.cpp b/src/vmime/net/maildir/format/courierMaildirFormat.cpp
index e611949..8953ccf 100644
--- a/src/vmime/net/maildir/format/courierMaildirFormat.cpp
+++ b/src/vmime/net/maildir/format/courierMaildirFormat.cpp
@@ -34,6 +34,8 @@
 
 #include "vmime/platform.hpp"
 
+#include <cstring>
+
 
 namespace vmime {
 namespace net {
@@ -209,6 +211,12 @@ const utility::file::path courierMaildirFormat::folderPathToFileSystemPath(
 		string folderComp;
 
 		for (size_t i = 0, n = path.getSize() ; i < n ; ++i) {
+
+			// "." and ".." would not designate a directory of the store
+			if (path[i].getBuffer().empty()) {
+				throw exceptions::invalid_folder_name();
+			}
+
 			folderComp += "." + toModifiedUTF7(path[i]);
 		}
 
@@ -265,6 +273,10 @@ const std::vector <folder::path> courierMaildirFormat::listFolders(
 		const string dir = dirs[i].substr(1) + ".";
 		folder::path path;
 
+		if (dir[0] == '.' || dir.find("..") != string::npos) {
+			continue;  // not a folder: a name cannot be empty
+		}
+
 		for (size_t pos = dir.find("."), prev = 0 ;
 		     pos != string::npos ; prev = pos + 1, pos = dir.find(".", pos + 1)) {
 
@@ -303,6 +315,8 @@ bool courierMaildirFormat::listDirectories(
 			for (size_t i = 0, n = root.getSize() ; i < n ; ++i) {
 				base += "." + toModifiedUTF7(root[i]);
 			}
+
+			base += ".";
 		}
 
 		// Enumerate directories
@@ -353,6 +367,76 @@ bool courierMaildirFormat::isSubfolderDirectory(const utility::file& file) {
 }
 
 
+static const char MODIFIED_BASE64[] =
+	"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+,";
+
+
+// Appends an UTF-16 code unit, in big-endian order.
+static void appendUnit(string& units, const unsigned int unit) {
+
+	units += static_cast <char>(unit >> 8);
+	units += static_cast <char>(unit & 0xff);
+}
+
+
+// Appends a sequence of UTF-16 code units, encoded in modified Base64.
+static void appendModifiedBase64(string& out, const string& units) {
+
+	if (units.empty()) {
+		return;
+	}
+
+	unsigned int bits = 0;
+	int bitCount = 0;
+
+	out += '&';
+
+	for (size_t i = 0, n = units.length() ; i < n ; ++i) {
+
+		bits = ((bits << 8) | static_cast <unsigned char>(units[i])) & 0xffff;
+		bitCount += 8;
+
+		for ( ; bitCount >= 6 ; bitCount -= 6) {
+			out += MODIFIED_BASE64[(bits >> (bitCount - 6)) & 0x3f];
+		}
+	}
+
+	if (bitCount != 0) {
+		out += MODIFIED_BASE64[(bits << (6 - bitCount)) & 0x3f];
+	}
+
+	out += '-';
+}
+
+
+// Appends a character to an UTF-8 string.
+static void appendUTF8(string& out, const unsigned int ch) {
+
+	if (ch < 0x80) {
+
+		out += static_cast <char>(ch);
+
+	} else if (ch < 0x800) {
+
+		out += static_cast <char>(0xc0 | (ch >> 6));
+		out += static_cast <char>(0x80 | (ch & 0x3f));
+
+	} else if (ch < 0x10000) {
+
+		out += static_cast <char>(0xe0 | (ch >> 12));
+		out += static_cast <char>(0x80 | ((ch >> 6) & 0x3f));
+		out += static_cast <char>(0x80 | (ch & 0x3f));
+
+	} else {
+
+		out += static_cast <char>(0xf0 | (ch >> 18));
+		out += static_cast <char>(0x80 | ((ch >> 12) & 0x3f));
+		out += static_cast <char>(0x80 | ((ch >> 6) & 0x3f));
+		out += static_cast <char>(0x80 | (ch & 0x3f));
+	}
+}
+
+
 // static
 const string courierMaildirFormat::toModifiedUTF7(const folder::path::component& text) {
 
@@ -383,78 +467,69 @@ const string courierMaildirFormat::toModifiedUTF7(const folder::path::component&
 	// that name would be a maildir subdirectory called ".R&AOk-sum&AOk-").
 	//
 
-	// Transcode path component to UTF-7 charset.
+	// This is not done by converting to UTF-7, in which some other characters
+	// do not represent themselves, and the end of a sequence may be omitted.
 	// WARNING: This may throw "exceptions::charset_conv_error"
-	const string cvt = text.getConvertedText(charset(charsets::UTF_7));
+	const string cvt = text.getConvertedText(charset(charsets::UTF_8));
 
-	// Transcode to modified UTF-7 (RFC-2060).
-	string out;
-	out.reserve((cvt.length() * 3) / 2);
+	string out, units;
+	out.reserve(cvt.length() * 3);
 
-	bool inB64sequence = false;
+	for (size_t i = 0, len = cvt.length() ; i < len ; ) {
 
-	for (string::const_iterator it = cvt.begin() ; it != cvt.end() ; ++it) {
+		const unsigned char c = cvt[i++];
 
-		const unsigned char c = *it;
+		if (c >= 0x20 && c < 0x7f && c != '.' && c != '/') {
 
-		switch (c) {
+			appendModifiedBase64(out, units);
+			units.clear();
 
-			// Beginning of Base64 sequence: replace '+' with '&'
-			case '+': {
+			out += static_cast <char>(c);
 
-				if (!inB64sequence) {
-					inB64sequence = true;
-					out += '&';
-				} else {
-					out += '+';
-				}
-
-				break;
-			}
-			// End of Base64 sequence
-			case '-': {
-
-				inB64sequence = false;
+			if (c == '&') {
 				out += '-';
-				break;
 			}
-			// ',' is used instead of '/' in modified Base64,
-			// and simply UTF7-encoded out of a Base64 sequence
-			case '/': {
-
-				if (inB64sequence) {
-					out += ',';
-				} else {
-					out += "&Lw-";
-				}
 
-				break;
-			}
-			// Encode period (should not happen in a Base64 sequence)
-			case '.': {
+			continue;
+		}
 
-				out += "&Lg-";
-				break;
+		unsigned int ch = c;
+
+		if (c >= 0x80) {
+
+			const size_t n = (c >= 0xf0 ? 3 : c >= 0xe0 ? 2 : 1);
+
+			if (c < 0xc2 || c > 0xf4 || n > len - i) {
+				throw exceptions::charset_conv_error();
 			}
-			// '&' (0x26) is represented by the two-octet sequence "&-"
-			case '&': {
 
-				if (!inB64sequence) {
-					out += "&-";
-				} else {
-					out += '&';
+			ch = c & (0x3f >> n);
+
+			for (size_t j = 0 ; j < n ; ++j, ++i) {
+
+				if ((cvt[i] & 0xc0) != 0x80) {
+					throw exceptions::charset_conv_error();
 				}
 
-				break;
+				ch = (ch << 6) | (cvt[i] & 0x3f);
 			}
-			default: {
+		}
 
-				out += c;
-				break;
-			}
+		if (ch > 0xffff) {
+
+			ch -= 0x10000;
+
+			appendUnit(units, 0xd800 | ((ch >> 10) & 0x3ff));
+			appendUnit(units, 0xdc00 | (ch & 0x3ff));
+
+		} else {
+
+			appendUnit(units, ch);
 		}
 	}
 
+	appendModifiedBase64(out, units);
+
 	return out;
 }
 
@@ -466,61 +541,77 @@ const folder::path::component courierMaildirFormat::fromModifiedUTF7(const strin
 	string out;
 	out.reserve(text.length());
 
-	bool inB64sequence = false;
-	unsigned char prev = 0;
+	for (size_t i = 0, len = text.length() ; i < len ; ) {
+
+		const char c = text[i++];
 
-	for (string::const_iterator it = text.begin() ; it != text.end() ; ++it) {
+		if (c != '&') {
+			out += c;
+			continue;
+		}
 
-		const unsigned char c = *it;
+		// "&-" --> "&"
+		if (i < len && text[i] == '-') {
+			out += '&';
+			++i;
+			continue;
+		}
 
-		switch (c) {
+		// Base64 sequence: big-endian UTF-16
+		unsigned int bits = 0;
+		int bitCount = 0;
+		unsigned int high = 0;  // high surrogate waiting for the low one
 
-			// Start of Base64 sequence
-			case '&': {
+		for ( ; i < len ; ++i) {
 
-				if (!inB64sequence) {
-					inB64sequence = true;
-					out += '+';
-				} else {
-					out += '&';
-				}
+			const char* const digit = std::strchr(MODIFIED_BASE64, text[i]);
 
+			if (text[i] == '\0' || !digit) {
 				break;
 			}
-			// End of Base64 sequence (or "&-" --> "&")
-			case '-': {
 
-				if (inB64sequence && prev == '&') {
-					out += '&';
-				} else {
-					out += '-';
-				}
+			bits = ((bits << 6) | static_cast <unsigned int>(digit - MODIFIED_BASE64)) & 0x3fffff;
+			bitCount += 6;
 
-				inB64sequence = false;
-				break;
+			if (bitCount < 16) {
+				continue;
 			}
-			// ',' is used instead of '/' in modified Base64
-			case ',': {
 
-				out += (inB64sequence ? '/' : ',');
-				break;
+			bitCount -= 16;
+
+			const unsigned int unit = (bits >> bitCount) & 0xffff;
+
+			if (high != 0 && (unit & 0xfc00) == 0xdc00) {
+
+				appendUTF8(out, 0x10000 + ((high - 0xd800) << 10) + (unit - 0xdc00));
+				high = 0;
+				continue;
 			}
-			default: {
 
-				out += c;
-				break;
+			if (high != 0) {
+				appendUTF8(out, 0xfffd);
+				high = 0;
 			}
 
+			if ((unit & 0xfc00) == 0xd800) {
+				high = unit;
+			} else {
+				appendUTF8(out, (unit & 0xfc00) == 0xdc00 ? 0xfffd : unit);
+			}
+		}
+
+		if (high != 0) {
+			appendUTF8(out, 0xfffd);
 		}
 
-		prev = c;
+		// End of Base64 sequence
+		if (i < len && text[i] == '-') {
+			++i;
+		}
 	}
 
 	// Store it as UTF-8 by default
-	string cvt;
-	charset::convert(out, cvt, charset(charsets::UTF_7), charset(charsets::UTF_8));
-
-	return folder::path::component(cvt, charset(charsets::UTF_8));
+	return folder::path::component(out, charset(charsets::UTF_8));
 }
 
 
-- 
2.43.0


From eb42a5c5920675b1f6d3b1c97e1e8776b8f37f8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:25 +0000
Subject: [PATCH 033/118] fix: maildir folder: expunge, flags, numbers and
 rescans keep the list of messages

---
 src/vmime/net/maildir/maildirFolder.cpp | 88 ++++++++++++++++++-------
 1 file changed, 64 insertions(+), 24 deletions(-)

diff --git a/src/vmime/net/maildir/maildirFolder.cpp b/src/vmime/net/maildir/maildirFolder.cpp
index 4485767..e4357cf 100644
--- a/src/vmime/net/maildir/maildirFolder.cpp
+++ b/src/vmime/net/maildir/maildirFolder.cpp
@@ -149,6 +149,8 @@ void maildirFolder::open(const int mode, bool /* failIfModeIsNotAvailable */) {
 		throw exceptions::illegal_state("Folder does not exist");
 	}
 
+	m_messageInfos.clear();
+
 	scanFolder();
 
 	m_open = true;
@@ -339,27 +341,50 @@ void maildirFolder::scanFolder() {
 			// "maildirUtils::messageIdComparator" to compare only the 'unique'
 			// portion of the filename...
 
-			if (msgInfos.type == messageInfos::TYPE_CUR) {
+			const std::vector <utility::file::path::component>::iterator pos =
+				std::find_if(
+					curMessageFilenames.begin(),
+					curMessageFilenames.end(),
+					maildirUtils::messageIdComparator(msgInfos.path)
+				);
 
-				const std::vector <utility::file::path::component>::iterator pos =
-					std::find_if(
-						curMessageFilenames.begin(),
-						curMessageFilenames.end(),
-						maildirUtils::messageIdComparator(msgInfos.path)
-					);
+			const std::vector <utility::file::path::component>::iterator newPos =
+				std::find_if(
+					newMessageFilenames.begin(),
+					newMessageFilenames.end(),
+					maildirUtils::messageIdComparator(msgInfos.path)
+				);
 
-				// If we cannot find this message in the 'cur' directory,
-				// it means it has been deleted (and expunged).
-				if (pos == curMessageFilenames.end()) {
+			// The message is in the 'cur' directory: update its information.
+			if (pos != curMessageFilenames.end()) {
 
-					msgInfos.type = messageInfos::TYPE_DELETED;
+				msgInfos.path = *pos;
+				curMessageFilenames.erase(pos);
 
-				// Otherwise, update its information.
+				if (maildirUtils::extractFlags(msgInfos.path) & message::FLAG_DELETED) {
+					msgInfos.type = messageInfos::TYPE_DELETED;
 				} else {
-
-					msgInfos.path = *pos;
-					curMessageFilenames.erase(pos);
+					msgInfos.type = messageInfos::TYPE_CUR;
 				}
+
+			// The message has been added by us to the 'new' directory: move it
+			// to the 'cur' directory.
+			} else if (newPos != newMessageFilenames.end()) {
+
+				const utility::file::path::component newFilename =
+					maildirUtils::buildFilename(maildirUtils::extractId(*newPos), 0);
+
+				shared_ptr <utility::file> file = fsf->create(newDirPath / *newPos);
+				file->rename(curDirPath / newFilename);
+
+				msgInfos.path = newFilename;
+				newMessageFilenames.erase(newPos);
+
+			// If we cannot find this message, it means it has been deleted
+			// (and expunged).
+			} else {
+
+				msgInfos.type = messageInfos::TYPE_DELETED;
 			}
 		}
 
@@ -591,7 +616,7 @@ void maildirFolder::rename(const folder::path& newPath) {
 
 		} else if ((*it) != this && oldPath.isParentOf((*it)->getFullPath())) {
 
-			folder::path oldPath((*it)->m_path);
+			const folder::path oldSubPath((*it)->m_path);
 
 			(*it)->m_path.renameParent(oldPath, newPath);
 
@@ -599,7 +624,7 @@ void maildirFolder::rename(const folder::path& newPath) {
 				make_shared <events::folderEvent>(
 					dynamicCast <folder>((*it)->shared_from_this()),
 					events::folderEvent::TYPE_RENAMED,
-					oldPath, (*it)->m_path
+					oldSubPath, (*it)->m_path
 				);
 
 			(*it)->notifyFolder(event);
@@ -646,6 +671,10 @@ void maildirFolder::setMessageFlags(
 
 			const size_t num = *it - 1;
 
+			if (num >= m_messageInfos.size()) {
+				throw exceptions::message_not_found();
+			}
+
 			try {
 
 				const utility::file::path::component path = m_messageInfos[num].path;
@@ -665,7 +694,7 @@ void maildirFolder::setMessageFlags(
 
 				file->rename(curDirPath / newPath);
 
-				if (flags & message::FLAG_DELETED) {
+				if (newFlags & message::FLAG_DELETED) {
 					m_messageInfos[num].type = messageInfos::TYPE_DELETED;
 				} else {
 					m_messageInfos[num].type = messageInfos::TYPE_CUR;
@@ -1010,6 +1039,11 @@ messageSet maildirFolder::copyMessages(const folder::path& dest, const messageSe
 		     nums.begin() ; it != nums.end() ; ++it) {
 
 			const size_t num = *it;
+
+			if (num > m_messageInfos.size()) {
+				throw exceptions::message_not_found();
+			}
+
 			const messageInfos& msg = m_messageInfos[num - 1];
 			const int flags = maildirUtils::extractFlags(msg.path);
 
@@ -1089,8 +1123,8 @@ shared_ptr <folderStatus> maildirFolder::getStatus() {
 		std::vector <size_t> nums;
 		nums.reserve(m_messageCount - oldCount);
 
-		for (size_t i = oldCount + 1, j = 0 ; i <= m_messageCount ; ++i, ++j) {
-			nums[j] = i;
+		for (size_t i = oldCount + 1 ; i <= m_messageCount ; ++i) {
+			nums.push_back(i);
 		}
 
 		shared_ptr <events::messageCountEvent> event =
@@ -1161,14 +1195,20 @@ void maildirFolder::expunge() {
 			for (std::vector <maildirMessage*>::iterator it =
 			     m_messages.begin() ; it != m_messages.end() ; ++it) {
 
-				if ((*it)->m_num == num) {
+				// Numbers of messages have already been decremented for each
+				// message expunged before this one
+				const size_t currentNum = num - (nums.size() - 1);
+
+				if ((*it)->m_expunged) {
+					continue;
+				} else if ((*it)->m_num == currentNum) {
 					(*it)->m_expunged = true;
-				} else if ((*it)->m_num > num) {
+				} else if ((*it)->m_num > currentNum) {
 					(*it)->m_num--;
 				}
 			}
 
-			if (maildirUtils::extractFlags(infos.path) & message::FLAG_SEEN) {
+			if ((maildirUtils::extractFlags(infos.path) & message::FLAG_SEEN) == 0) {
 				++unreadCount;
 			}
 
@@ -1185,7 +1225,7 @@ void maildirFolder::expunge() {
 	if (!nums.empty()) {
 
 		for (std::vector <size_t>::size_type i = nums.size() ; i != 0 ; --i) {
-			m_messageInfos.erase(m_messageInfos.begin() + (i - 1));
+			m_messageInfos.erase(m_messageInfos.begin() + (nums[i - 1] - 1));
 		}
 	}
 
-- 
2.43.0


From fb6421a0e9988220662da839a8d4f6c1c04d4f78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:25 +0000
Subject: [PATCH 034/118] fix: posix files: complete short writes, do not show
 an empty file while renaming

---
 src/vmime/platforms/posix/posixFile.cpp | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/vmime/platforms/posix/posixFile.cpp b/src/vmime/platforms/posix/posixFile.cpp
index 9773b3a..7b675bf 100644
--- a/src/vmime/platforms/posix/posixFile.cpp
+++ b/src/vmime/platforms/posix/posixFile.cpp
@@ -167,6 +167,8 @@ void posixFileWriterOutputStream::writeImpl(
 
 			array += ret;
 			size -= ret;
+
+			continue;
 		}
 
 		break;
@@ -484,12 +486,20 @@ void posixFile::rename(const path& newName) {
 
 	const vmime::string newNativePath = posixFileSystemFactory::pathToStringImpl(newName);
 
-	posixFile dest(newName);
-
 	if (isDirectory()) {
+
+		posixFile dest(newName);
 		dest.createDirectory();
+
 	} else {
-		dest.createFile();
+
+		// Do not overwrite an existing file. The destination is not created
+		// first: it would be visible, and empty, until the file is moved.
+		struct stat buf;
+
+		if (::stat(newNativePath.c_str(), &buf) == 0) {
+			posixFileSystemFactory::reportError(newName, EEXIST);
+		}
 	}
 
 	if (::rename(m_nativePath.c_str(), newNativePath.c_str()) == -1) {
-- 
2.43.0


From cae5e427a81c3a82c7c7e52cc3c5b04e754f935d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:15 +0000
Subject: [PATCH 035/118] fix: a SMTP reply code is three digits

---
 src/vmime/net/smtp/SMTPResponse.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/vmime/net/smtp/SMTPResponse.cpp b/src/vmime/net/smtp/SMTPResponse.cpp
index 1208e0e..79ed7ce 100644
--- a/src/vmime/net/smtp/SMTPResponse.cpp
+++ b/src/vmime/net/smtp/SMTPResponse.cpp
@@ -29,6 +29,8 @@
 
 #include "vmime/net/smtp/SMTPResponse.hpp"
 
+#include "vmime/parserHelpers.hpp"
+
 #include "vmime/platform.hpp"
 #include "vmime/utility/stringUtils.hpp"
 
@@ -213,7 +215,10 @@ int SMTPResponse::extractResponseCode(const string& response) {
 
 	int code = 0;
 
-	if (response.length() >= 3) {
+	if (response.length() >= 3 &&
+	    parserHelpers::isDigit(response[0]) &&
+	    parserHelpers::isDigit(response[1]) &&
+	    parserHelpers::isDigit(response[2])) {
 
 		code = (response[0] - '0') * 100
 		     + (response[1] - '0') * 10
-- 
2.43.0


From 4eb86dd79e3906d216f8f31607764c801317092e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:15 +0000
Subject: [PATCH 036/118] fix: SMTP DATA: double the dot at the beginning of a
 message

---
 src/vmime/net/smtp/SMTPTransport.cpp | 2 +-
 src/vmime/utility/filteredStream.cpp | 6 +++---
 src/vmime/utility/filteredStream.hpp | 4 +++-
 3 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/vmime/net/smtp/SMTPTransport.cpp b/src/vmime/net/smtp/SMTPTransport.cpp
index e557137..937cb4a 100644
--- a/src/vmime/net/smtp/SMTPTransport.cpp
+++ b/src/vmime/net/smtp/SMTPTransport.cpp
@@ -409,7 +409,7 @@ void SMTPTransport::send(
 	// Send the message data
 	// Stream copy with "\n." to "\n.." transformation
 	utility::outputStreamSocketAdapter sos(*m_connection->getSocket());
-	utility::dotFilteredOutputStream fos(sos);
+	utility::dotFilteredOutputStream fos(sos, /* startOfLine */ true);
 
 	utility::bufferedStreamCopy(is, fos, size, progress);
 
diff --git a/src/vmime/utility/filteredStream.cpp b/src/vmime/utility/filteredStream.cpp
index d9f45d4..11e921c 100644
--- a/src/vmime/utility/filteredStream.cpp
+++ b/src/vmime/utility/filteredStream.cpp
@@ -130,10 +130,10 @@ size_t dotFilteredInputStream::skip(const size_t /* count */) {
 
 // dotFilteredOutputStream
 
-dotFilteredOutputStream::dotFilteredOutputStream(outputStream& os)
+dotFilteredOutputStream::dotFilteredOutputStream(outputStream& os, const bool startOfLine)
 	: m_stream(os),
-	  m_previousChar('\0'),
-	  m_start(true) {
+	  m_previousChar(startOfLine ? '\n' : '\0'),
+	  m_start(!startOfLine) {
 
 }
 
diff --git a/src/vmime/utility/filteredStream.hpp b/src/vmime/utility/filteredStream.hpp
index 4dfc164..19e2d25 100644
--- a/src/vmime/utility/filteredStream.hpp
+++ b/src/vmime/utility/filteredStream.hpp
@@ -108,8 +108,10 @@ public:
 	/** Construct a new filter for the specified output stream.
 	  *
 	  * @param os stream into which write filtered data
+	  * @param startOfLine if true, the content starts at the beginning of a
+	  * line, so a dot at the beginning of the content is always doubled
 	  */
-	dotFilteredOutputStream(outputStream& os);
+	dotFilteredOutputStream(outputStream& os, const bool startOfLine = false);
 
 	outputStream& getNextOutputStream();
 
-- 
2.43.0


From d985b49ca9c2d796b7c4b7825a3b5d54612043eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:15 +0000
Subject: [PATCH 037/118] fix: SMTP pipelining: read the replies left when an
 envelope is refused

---
 src/vmime/net/smtp/SMTPTransport.cpp | 79 +++++++++++++++++++++++++++-
 1 file changed, 78 insertions(+), 1 deletion(-)

diff --git a/src/vmime/net/smtp/SMTPTransport.cpp b/src/vmime/net/smtp/SMTPTransport.cpp
index 937cb4a..26a0f3d 100644
--- a/src/vmime/net/smtp/SMTPTransport.cpp
+++ b/src/vmime/net/smtp/SMTPTransport.cpp
@@ -52,6 +52,70 @@ namespace net {
 namespace smtp {
 
 
+namespace {
+
+
+/** When an error occurs while the replies to pipelined commands are being
+  * read, reads the remaining replies, so that they are not taken as replies
+  * to the next commands.
+  */
+class pendingReplies {
+
+public:
+
+	pendingReplies(const shared_ptr <SMTPConnection>& conn, const size_t count, const bool hasDATA)
+		: m_connection(conn),
+		  m_count(count),
+		  m_hasDATA(hasDATA) {
+
+	}
+
+	~pendingReplies() {
+
+		if (m_count == 0 || !m_connection->isConnected()) {
+			return;
+		}
+
+		try {
+
+			shared_ptr <SMTPResponse> resp;
+
+			for ( ; m_count != 0 ; --m_count) {
+				resp = m_connection->readResponse();
+			}
+
+			// The server is now waiting for a message that will not be sent
+			if (m_hasDATA && resp->getCode() == 354) {
+				m_connection->disconnect();
+			}
+
+		} catch (...) {
+
+			// Don't throw in destructor
+			if (m_connection->isConnected()) {
+				m_connection->disconnect();
+			}
+		}
+	}
+
+	void replyRead() {
+
+		if (m_count != 0) {
+			--m_count;
+		}
+	}
+
+private:
+
+	const shared_ptr <SMTPConnection> m_connection;
+	size_t m_count;
+	const bool m_hasDATA;
+};
+
+
+}  // namespace
+
+
 SMTPTransport::SMTPTransport(
 	const shared_ptr <session>& sess,
 	const shared_ptr <security::authenticator>& auth,
@@ -274,12 +338,20 @@ void SMTPTransport::sendEnvelope(
 		commands->addCommand(SMTPCommand::DATA());
 	}
 
+	// Number of replies the server will send, if it gets all the commands at once
+	pendingReplies pending(
+		m_connection,
+		hasPipelining ? (needReset ? 1 : 0) + 1 + recipients.getMailboxCount() + (sendDATACommand ? 1 : 0) : 0,
+		sendDATACommand
+	);
+
 	// Read response for "RSET" command
 	if (needReset) {
 
 		commands->writeToSocket(m_connection->getSocket(), m_connection->getTracer());
 
 		resp = m_connection->readResponse();
+		pending.replyRead();
 
 		if (resp->getCode() != 250 &&
 		    resp->getCode() != 200) {   // RFC-876: << In reply to a RSET and/or a NOOP command,
@@ -297,7 +369,10 @@ void SMTPTransport::sendEnvelope(
 	// Read response for "MAIL" command
 	commands->writeToSocket(m_connection->getSocket(), m_connection->getTracer());
 
-	if ((resp = m_connection->readResponse())->getCode() != 250) {
+	resp = m_connection->readResponse();
+	pending.replyRead();
+
+	if (resp->getCode() != 250) {
 		auto code = resp->getCode();
 
 		// SIZE extension: insufficient system storage
@@ -336,6 +411,7 @@ void SMTPTransport::sendEnvelope(
 		commands->writeToSocket(m_connection->getSocket(), m_connection->getTracer());
 
 		resp = m_connection->readResponse();
+		pending.replyRead();
 		auto code = resp->getCode();
 
 		if (code != 250 && code != 251) {
@@ -376,6 +452,7 @@ void SMTPTransport::sendEnvelope(
 
 		commands->writeToSocket(m_connection->getSocket(), m_connection->getTracer());
 		auto resp = m_connection->readResponse();
+		pending.replyRead();
 		auto code = resp->getCode();
 
 		if (code != 354) {
-- 
2.43.0


From 256d5d202d0feabcefe54cc033e2b257671329ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:15 +0000
Subject: [PATCH 038/118] fix: SMTP: an e-mail address cannot end the MAIL or
 RCPT command

---
 src/vmime/net/smtp/SMTPCommand.cpp | 82 ++++++++++++++++++++++--------
 1 file changed, 61 insertions(+), 21 deletions(-)

diff --git a/src/vmime/net/smtp/SMTPCommand.cpp b/src/vmime/net/smtp/SMTPCommand.cpp
index c636d4b..08d4179 100644
--- a/src/vmime/net/smtp/SMTPCommand.cpp
+++ b/src/vmime/net/smtp/SMTPCommand.cpp
@@ -32,8 +32,9 @@
 #include "vmime/net/socket.hpp"
 #include "vmime/net/tracer.hpp"
 
+#include "vmime/exception.hpp"
 #include "vmime/mailbox.hpp"
-#include "vmime/utility/outputStreamAdapter.hpp"
+#include "vmime/utility/outputStreamStringAdapter.hpp"
 
 
 namespace vmime {
@@ -41,6 +42,63 @@ namespace net {
 namespace smtp {
 
 
+namespace {
+
+
+/** Generate an address for use between "<" and ">" in a command.
+  *
+  * @throw exceptions::invalid_argument if the address cannot be the
+  * argument of a command (it would end the argument or the command)
+  */
+const string generateAddress(const mailbox& mbox, const bool utf8) {
+
+	generationContext ctx(generationContext::getDefaultContext());
+	ctx.setInternationalizedEmailSupport(utf8);
+
+	string addr;
+	utility::outputStreamStringAdapter os(addr);
+
+	mbox.getEmail().generate(ctx, os);
+
+	bool quoted = false;
+
+	for (size_t i = 0, n = addr.length() ; i < n ; ++i) {
+
+		const char c = addr[i];
+
+		if (c == '\r' || c == '\n' || c == '\0') {
+
+			throw exceptions::invalid_argument();
+
+		} else if (quoted) {
+
+			if (c == '\\' && i + 1 < n && addr[i + 1] != '\r' && addr[i + 1] != '\n' && addr[i + 1] != '\0') {
+				++i;  // quoted pair
+			} else if (c == '"') {
+				quoted = false;
+			}
+
+		} else if (c == '"') {
+
+			quoted = true;
+
+		} else if (c == ' ' || c == '<' || c == '>') {
+
+			throw exceptions::invalid_argument();
+		}
+	}
+
+	if (quoted) {
+		throw exceptions::invalid_argument();
+	}
+
+	return addr;
+}
+
+
+}  // namespace
+
+
 SMTPCommand::SMTPCommand(const string& text, const string& traceText)
 	: m_text(text),
 	  m_traceText(traceText)
@@ -119,16 +177,7 @@ shared_ptr <SMTPCommand> SMTPCommand::MAIL(
 	cmd.imbue(std::locale::classic());
 	cmd << "MAIL FROM:<";
 
-	if (utf8) {
-
-		cmd << mbox.getEmail().toText().getConvertedText(vmime::charsets::UTF_8);
-
-	} else {
-
-		vmime::utility::outputStreamAdapter cmd2(cmd);
-		mbox.getEmail().generate(cmd2);
-	}
-
+	cmd << generateAddress(mbox, utf8);
 	cmd << ">";
 
 	if (dsnAttrs && !dsnAttrs->getReturnFormat().empty()) {
@@ -160,16 +209,7 @@ shared_ptr <SMTPCommand> SMTPCommand::RCPT(
 	cmd.imbue(std::locale::classic());
 	cmd << "RCPT TO:<";
 
-	if (utf8) {
-
-		cmd << mbox.getEmail().toText().getConvertedText(vmime::charsets::UTF_8);
-
-	} else {
-
-		vmime::utility::outputStreamAdapter cmd2(cmd);
-		mbox.getEmail().generate(cmd2);
-	}
-
+	cmd << generateAddress(mbox, utf8);
 	cmd << ">";
 
 	if (dsnAttrs && !dsnAttrs->getNotificationConditions().empty()) {
-- 
2.43.0


From 9f599a335f55cdd18293e6450fb5db38e494753a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:53 +0000
Subject: [PATCH 039/118] fix: read POP3 multi-line replies exactly, and error
 replies to RETR and TOP

---
 src/vmime/net/pop3/POP3Message.cpp  |   2 +-
 src/vmime/net/pop3/POP3Response.cpp | 100 ++++++++++++++++++++--------
 2 files changed, 74 insertions(+), 28 deletions(-)

diff --git a/src/vmime/net/pop3/POP3Message.cpp b/src/vmime/net/pop3/POP3Message.cpp
index 8d6b7f5..f898479 100644
--- a/src/vmime/net/pop3/POP3Message.cpp
+++ b/src/vmime/net/pop3/POP3Message.cpp
@@ -158,7 +158,7 @@ void POP3Message::extract(
 		throw exceptions::illegal_state("Store disconnected");
 	}
 
-	if (start != 0 && length != static_cast <size_t>(-1)) {
+	if (start != 0 || length != static_cast <size_t>(-1)) {
 		throw exceptions::partial_fetch_not_supported();
 	}
 
diff --git a/src/vmime/net/pop3/POP3Response.cpp b/src/vmime/net/pop3/POP3Response.cpp
index 725841e..8a6b319 100644
--- a/src/vmime/net/pop3/POP3Response.cpp
+++ b/src/vmime/net/pop3/POP3Response.cpp
@@ -46,6 +46,55 @@ namespace net {
 namespace pop3 {
 
 
+namespace {
+
+/** A socket stream which keeps a copy of the first line received.
+  */
+class firstLineSocketAdapter : public utility::inputStreamSocketAdapter {
+
+public:
+
+	firstLineSocketAdapter(socket& sok)
+		: inputStreamSocketAdapter(sok),
+		  m_complete(false) {
+
+	}
+
+	size_t read(byte_t* const data, const size_t count) {
+
+		const size_t read = inputStreamSocketAdapter::read(data, count);
+
+		for (size_t i = 0 ; i < read && !m_complete ; ++i) {
+
+			if (data[i] == '\n') {
+				m_complete = true;
+			} else {
+				m_line += static_cast <char>(data[i]);
+			}
+		}
+
+		return read;
+	}
+
+	bool hasFirstLine() const {
+
+		return m_complete;
+	}
+
+	const string getFirstLine() const {
+
+		return utility::stringUtils::trim(m_line);
+	}
+
+private:
+
+	string m_line;
+	bool m_complete;
+};
+
+} // anonymous namespace
+
+
 POP3Response::POP3Response(
 	const shared_ptr <socket>& sok,
 	const shared_ptr <timeoutHandler>& toh,
@@ -201,8 +250,6 @@ void POP3Response::readResponseImpl(string& buffer, const bool multiLine) {
 
 	buffer.clear();
 
-	char last1 = '\0', last2 = '\0';
-
 	for ( ; !foundTerminator ; ) {
 
 		// Check whether the time-out delay is elapsed
@@ -235,28 +282,6 @@ void POP3Response::readResponseImpl(string& buffer, const bool multiLine) {
 			m_timeoutHandler->resetTimeOut();
 		}
 
-		// Check for transparent characters: '\n..' becomes '\n.'
-		const char first = receiveBuffer[0];
-
-		if (first == '.' && last2 == '\n' && last1 == '.') {
-
-			receiveBuffer.erase(receiveBuffer.begin());
-
-		} else if (receiveBuffer.length() >= 2 && first == '.' &&
-		           receiveBuffer[1] == '.' && last1 == '\n') {
-
-			receiveBuffer.erase(receiveBuffer.begin());
-		}
-
-		for (size_t trans ;
-		     string::npos != (trans = receiveBuffer.find("\n..")) ; ) {
-
-			receiveBuffer.replace(trans, 3, "\n.");
-		}
-
-		last1 = receiveBuffer[receiveBuffer.length() - 1];
-		last2 = static_cast <char>((receiveBuffer.length() >= 2) ? receiveBuffer[receiveBuffer.length() - 2] : 0);
-
 		// Append the data to the response buffer
 		buffer += receiveBuffer;
 
@@ -269,11 +294,24 @@ void POP3Response::readResponseImpl(string& buffer, const bool multiLine) {
 		// terminator and check for a "normal" one.
 		if (multiLine &&
 		    !foundTerminator &&
-		    buffer.length() >= 4 && buffer[0] == '-') {
+		    getResponseCode(buffer) == CODE_ERR) {
 
 			foundTerminator = checkTerminator(buffer, false);
 		}
 	}
+
+	// Remove transparent characters ('\n..' becomes '\n.'). This is done
+	// once the whole response has been received, so that it depends
+	// neither on how data has been split into packets, nor prevents
+	// finding the actual terminator.
+	if (multiLine) {
+
+		for (size_t trans = 0 ;
+		     string::npos != (trans = buffer.find("\n..", trans)) ; trans += 2) {
+
+			buffer.erase(trans + 1, 1);
+		}
+	}
 }
 
 
@@ -297,7 +335,7 @@ size_t POP3Response::readResponseImpl(
 		m_timeoutHandler->resetTimeOut();
 	}
 
-	utility::inputStreamSocketAdapter sis(*m_socket);
+	firstLineSocketAdapter sis(*m_socket);
 	utility::stopSequenceFilteredInputStream <5> sfis1(sis, "\r\n.\r\n");
 	utility::stopSequenceFilteredInputStream <3> sfis2(sfis1, "\n.\n");
 	utility::dotFilteredInputStream dfis(sfis2);   // "\n.." --> "\n."
@@ -318,6 +356,14 @@ size_t POP3Response::readResponseImpl(
 		byte_t buffer[65536];
 		const size_t read = is.read(buffer, sizeof(buffer));
 
+		// An error response includes only one line, with no terminator:
+		// do not wait for more data
+		if (!codeDone && sis.hasFirstLine() &&
+		    getResponseCode(sis.getFirstLine()) != CODE_OK) {
+
+			throw exceptions::command_error("?", sis.getFirstLine());
+		}
+
 		if (read == 0) {  // buffer is empty
 
 			if (m_socket->getStatus() & socket::STATUS_WANT_WRITE) {
@@ -431,7 +477,7 @@ POP3Response::ResponseCode POP3Response::getResponseCode(const string& buffer) {
 
 			if (buffer[0] == '+' &&
 			    (buffer[1] == 'O' || buffer[1] == 'o') &&
-			    (buffer[2] == 'K' || buffer[1] == 'k')) {
+			    (buffer[2] == 'K' || buffer[2] == 'k')) {
 
 				return CODE_OK;
 			}
-- 
2.43.0


From 1509960f76912be7f52e3ee897888c044e6e346b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:13 +0000
Subject: [PATCH 040/118] fix: mark the POP3 messages deleted before a DELE
 that fails

---
 src/vmime/net/pop3/POP3Folder.cpp | 37 ++++++++++++++++++-------------
 1 file changed, 22 insertions(+), 15 deletions(-)

diff --git a/src/vmime/net/pop3/POP3Folder.cpp b/src/vmime/net/pop3/POP3Folder.cpp
index b69a483..e142b05 100644
--- a/src/vmime/net/pop3/POP3Folder.cpp
+++ b/src/vmime/net/pop3/POP3Folder.cpp
@@ -614,25 +614,25 @@ void POP3Folder::deleteMessages(const messageSet& msgs) {
 		throw exceptions::illegal_state("Folder not open");
 	}
 
+	// Messages which have actually been deleted
+	std::vector <size_t> list;
+	shared_ptr <POP3Response> response;
+
 	for (std::vector <size_t>::const_iterator
 	     it = nums.begin() ; it != nums.end() ; ++it) {
 
 		POP3Command::DELE(*it)->send(store->getConnection());
 
-		shared_ptr <POP3Response> response =
-			POP3Response::readResponse(store->getConnection());
+		response = POP3Response::readResponse(store->getConnection());
 
 		if (!response->isSuccess()) {
-			throw exceptions::command_error("DELE", response->getFirstLine());
+			break;
 		}
+
+		list.push_back(*it);
 	}
 
 	// Sort message list
-	std::vector <size_t> list;
-
-	list.resize(nums.size());
-	std::copy(nums.begin(), nums.end(), list.begin());
-
 	std::sort(list.begin(), list.end());
 
 	// Update local flags
@@ -647,14 +647,21 @@ void POP3Folder::deleteMessages(const messageSet& msgs) {
 	}
 
 	// Notify message flags changed
-	shared_ptr <events::messageChangedEvent> event =
-		make_shared <events::messageChangedEvent>(
-			dynamicCast <folder>(shared_from_this()),
-			events::messageChangedEvent::TYPE_FLAGS,
-			list
-		);
+	if (!list.empty()) {
 
-	notifyMessageChanged(event);
+		shared_ptr <events::messageChangedEvent> event =
+			make_shared <events::messageChangedEvent>(
+				dynamicCast <folder>(shared_from_this()),
+				events::messageChangedEvent::TYPE_FLAGS,
+				list
+			);
+
+		notifyMessageChanged(event);
+	}
+
+	if (!response->isSuccess()) {
+		throw exceptions::command_error("DELE", response->getFirstLine());
+	}
 }
 
 
-- 
2.43.0


From e4bb06d38f897396a6e75e517d72a175db926901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:18 +0000
Subject: [PATCH 041/118] fix: refuse line ends in the arguments of POP3
 commands

---
 src/vmime/net/pop3/POP3Command.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/vmime/net/pop3/POP3Command.cpp b/src/vmime/net/pop3/POP3Command.cpp
index 0e79888..86ddefd 100644
--- a/src/vmime/net/pop3/POP3Command.cpp
+++ b/src/vmime/net/pop3/POP3Command.cpp
@@ -229,6 +229,12 @@ shared_ptr <POP3Command> POP3Command::createCommand(
 	const string& traceText
 ) {
 
+	// A command is a single line: ensure that no argument
+	// (eg. user name) can end it and start another one
+	if (text.find_first_of("\r\n") != string::npos) {
+		throw exceptions::invalid_argument();
+	}
+
 	if (traceText.empty()) {
 		return shared_ptr <POP3Command>(new POP3Command(text, text));
 	} else {
-- 
2.43.0


From 62de91a7af13ac974048f1efeb0d98833abda194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:44 +0000
Subject: [PATCH 042/118] fix: keep a last empty line and an empty text in POP3
 replies

---
 src/vmime/net/pop3/POP3Response.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/vmime/net/pop3/POP3Response.cpp b/src/vmime/net/pop3/POP3Response.cpp
index 8a6b319..3fbf165 100644
--- a/src/vmime/net/pop3/POP3Response.cpp
+++ b/src/vmime/net/pop3/POP3Response.cpp
@@ -311,6 +311,9 @@ void POP3Response::readResponseImpl(string& buffer, const bool multiLine) {
 
 			buffer.erase(trans + 1, 1);
 		}
+
+		// The new line before the terminator ends the last line
+		buffer += '\n';
 	}
 }
 
@@ -497,7 +500,7 @@ void POP3Response::stripResponseCode(const string& buffer, string& result) {
 	if (pos != string::npos) {
 		result = buffer.substr(pos + 1);
 	} else {
-		result = buffer;
+		result.clear();
 	}
 }
 
-- 
2.43.0


From 64e3d35c103065d54b0df555c322c2fa12b08dfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:47 +0000
Subject: [PATCH 043/118] fix: quote the strings and header names in IMAP
 commands, and refuse line ends

---
 src/vmime/net/imap/IMAPCommand.cpp          | 10 ++++++++--
 src/vmime/net/imap/IMAPSearchAttributes.cpp | 20 +++++++++-----------
 src/vmime/net/imap/IMAPUtils.cpp            |  2 +-
 3 files changed, 18 insertions(+), 14 deletions(-)

diff --git a/src/vmime/net/imap/IMAPCommand.cpp b/src/vmime/net/imap/IMAPCommand.cpp
index 256924e..fc99fe1 100644
--- a/src/vmime/net/imap/IMAPCommand.cpp
+++ b/src/vmime/net/imap/IMAPCommand.cpp
@@ -344,7 +344,7 @@ shared_ptr <IMAPCommand> IMAPCommand::SEARCH(
 	cmd << "SEARCH";
 
 	if (charset) {
-		cmd << " CHARSET " << charset->getName();
+		cmd << " CHARSET " << IMAPUtils::quoteString(charset->getName());
 	}
 
 	for (size_t i = 0, n = keys.size() ; i < n ; ++i) {
@@ -364,7 +364,7 @@ shared_ptr <IMAPCommand> IMAPCommand::UIDSEARCH(
     cmd << "UID SEARCH";
 
     if (charset) {
-        cmd << " CHARSET " << charset->getName();
+        cmd << " CHARSET " << IMAPUtils::quoteString(charset->getName());
     }
 
     for (size_t i = 0, n = keys.size() ; i < n ; ++i) {
@@ -422,6 +422,12 @@ shared_ptr <IMAPCommand> IMAPCommand::createCommand(
 	const string& traceText
 ) {
 
+	// A command is a single line: ensure that no argument
+	// (eg. a string, even quoted) can end it and start another one
+	if (text.find_first_of(string("\r\n\0", 3)) != string::npos) {
+		throw exceptions::invalid_argument();
+	}
+
 	if (traceText.empty()) {
 		return shared_ptr <IMAPCommand>(new IMAPCommand(text, text));
 	} else {
diff --git a/src/vmime/net/imap/IMAPSearchAttributes.cpp b/src/vmime/net/imap/IMAPSearchAttributes.cpp
index 7675f3e..3696c15 100644
--- a/src/vmime/net/imap/IMAPSearchAttributes.cpp
+++ b/src/vmime/net/imap/IMAPSearchAttributes.cpp
@@ -63,7 +63,7 @@ public:
 
 	void generate(std::ostringstream& out) const override {
 
-		out << m_token << " \"" << m_keyword << "\"";
+		out << m_token << " " << IMAPUtils::quoteString(m_keyword);
 	};
 };
 
@@ -85,7 +85,7 @@ public:
 
 	void generate(std::ostringstream& out) const override {
 
-		out << m_token << " " << m_keyword << " \"" << m_headerKeyword << "\"";
+		out << m_token << " " << IMAPUtils::quoteString(m_keyword) << " " << IMAPUtils::quoteString(m_headerKeyword);
 	};
 
 protected:
@@ -111,7 +111,7 @@ public:
 };
 
 
-class numberToken : public typedSearchToken< int > {
+class numberToken : public typedSearchToken <uint32_t> {
 
 public:
 
@@ -224,16 +224,14 @@ public:
 
 	void generate(std::ostringstream& out) const override {
 
-		if (*m_token) {
-			out << m_token << " (";
-		}
-		else {
-			out << "(";
-		}
 		tokenMessageSetEnumerator enu;
 		m_keyword.enumerate(enu);
-		out << enu.str();
-		out << ")";
+
+		if (*m_token) {
+			out << m_token << " " << enu.str();
+		} else {
+			out << "(" << enu.str() << ")";
+		}
 	}
 };
 
diff --git a/src/vmime/net/imap/IMAPUtils.cpp b/src/vmime/net/imap/IMAPUtils.cpp
index 09567aa..9220970 100644
--- a/src/vmime/net/imap/IMAPUtils.cpp
+++ b/src/vmime/net/imap/IMAPUtils.cpp
@@ -781,7 +781,7 @@ shared_ptr <IMAPCommand> IMAPUtils::buildFetchCommand(
 					list += " ";
 				}
 
-				list += *it;
+				list += quoteString(*it);
 			}
 
 			if (options.has(fetchAttributes::PEEK)) {
-- 
2.43.0


From 452c4500ae19fe4398d0caa662fe6c324fd13ae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:10 +0000
Subject: [PATCH 044/118] fix: what is received before STARTTLS completes is
 not a response to later commands

---
 src/vmime/net/imap/IMAPConnection.cpp |  4 ++++
 src/vmime/net/imap/IMAPParser.hpp     | 13 ++++++++++++-
 src/vmime/net/smtp/SMTPConnection.cpp |  4 ++++
 3 files changed, 20 insertions(+), 1 deletion(-)

diff --git a/src/vmime/net/imap/IMAPConnection.cpp b/src/vmime/net/imap/IMAPConnection.cpp
index 0e4020f..b723555 100644
--- a/src/vmime/net/imap/IMAPConnection.cpp
+++ b/src/vmime/net/imap/IMAPConnection.cpp
@@ -561,6 +561,10 @@ void IMAPConnection::startTLS() {
 		m_socket = tlsSocket;
 		m_parser->setSocket(m_socket);
 
+		// What has been received before the TLS negotiation can not be
+		// trusted: it must not be taken for responses to next commands
+		m_parser->discardPendingData();
+
 		m_secured = true;
 		m_cntInfos = make_shared <tls::TLSSecuredConnectionInfos>(
 			m_cntInfos->getHost(), m_cntInfos->getPort(), tlsSession, tlsSocket
diff --git a/src/vmime/net/imap/IMAPParser.hpp b/src/vmime/net/imap/IMAPParser.hpp
index 78b7697..d5f99e2 100644
--- a/src/vmime/net/imap/IMAPParser.hpp
+++ b/src/vmime/net/imap/IMAPParser.hpp
@@ -273,11 +273,22 @@ public:
 
 	~IMAPParser() {
 
+		discardPendingData();
+	}
+
+
+	/** Forget everything which has been received from the server and
+	  * which has not been used yet.
+	  */
+	void discardPendingData() {
+
 		for (auto it = m_pendingResponses.begin() ; it != m_pendingResponses.end() ; ++it) {
 			delete it->second;
 		}
-	}
 
+		m_pendingResponses.clear();
+		m_buffer.clear();
+	}
 
 	/** Set the socket currently used by this parser to receive data
 	  * from server.
diff --git a/src/vmime/net/smtp/SMTPConnection.cpp b/src/vmime/net/smtp/SMTPConnection.cpp
index 07d0376..05d3ae3 100644
--- a/src/vmime/net/smtp/SMTPConnection.cpp
+++ b/src/vmime/net/smtp/SMTPConnection.cpp
@@ -573,6 +573,10 @@ void SMTPConnection::startTLS() {
 
 		m_socket = tlsSocket;
 
+		// What has been received before the TLS negotiation can not be
+		// trusted: it must not be taken for responses to next commands
+		m_responseState = SMTPResponse::state();
+
 		m_secured = true;
 		m_cntInfos = make_shared <tls::TLSSecuredConnectionInfos>(
 			m_cntInfos->getHost(), m_cntInfos->getPort(), tlsSession, tlsSocket
-- 
2.43.0


From 9f7fcde97e2febb0d1e2ea9fa7ee049e71182aaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:17 +0000
Subject: [PATCH 045/118] fix: SASL socket: data beyond a pending buffer, and
 partial writes of encoded data

---
 src/vmime/security/sasl/SASLSocket.cpp | 25 +++++--------------------
 1 file changed, 5 insertions(+), 20 deletions(-)

diff --git a/src/vmime/security/sasl/SASLSocket.cpp b/src/vmime/security/sasl/SASLSocket.cpp
index 0dbafd8..d8c70db 100644
--- a/src/vmime/security/sasl/SASLSocket.cpp
+++ b/src/vmime/security/sasl/SASLSocket.cpp
@@ -183,7 +183,7 @@ size_t SASLSocket::receiveRaw(byte_t* buffer, const size_t count) {
 		std::copy(output, output + count, buffer);
 
 		m_pendingBuffer = output;
-		m_pendingLen = outputLen;
+		m_pendingLen = outputLen - count;
 		m_pendingPos = count;
 
 		return count;
@@ -236,26 +236,11 @@ void SASLSocket::sendRaw(const byte_t* buffer, const size_t count) {
 
 size_t SASLSocket::sendRawNonBlocking(const byte_t* buffer, const size_t count) {
 
-	byte_t* output = 0;
-	size_t outputLen = 0;
-
-	m_session->getMechanism()->encode(m_session, buffer, count, &output, &outputLen);
-
-	size_t bytesSent = 0;
-
-	try {
-
-		bytesSent = m_wrapped->sendRawNonBlocking(output, outputLen);
-
-	} catch (...) {
-
-		delete [] output;
-		throw;
-	}
-
-	delete [] output;
+	// Encoded data has to be sent as a whole: there is no way for the caller
+	// to send again what would remain of it
+	sendRaw(buffer, count);
 
-	return bytesSent;
+	return count;
 }
 
 
-- 
2.43.0


From c74ec84515c8fb6451a328ed3d5180f531fe56d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:17 +0000
Subject: [PATCH 046/118] fix: IMAP: read responses through the security layer
 of the SASL session

---
 src/vmime/net/imap/IMAPConnection.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/vmime/net/imap/IMAPConnection.cpp b/src/vmime/net/imap/IMAPConnection.cpp
index b723555..44f45f4 100644
--- a/src/vmime/net/imap/IMAPConnection.cpp
+++ b/src/vmime/net/imap/IMAPConnection.cpp
@@ -430,6 +430,7 @@ void IMAPConnection::authenticateSASL() {
 			    	status == IMAPParser::resp_cond_state::OK) {
 
 				m_socket = saslSession->getSecuredSocket(m_socket);
+				m_parser->setSocket(m_socket);
 				return;
 
 			} else {
-- 
2.43.0


From 785d296f95eb7cc13464b27ca447ca176be2905c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:10 +0000
Subject: [PATCH 047/118] fix: a certificate is issued by another only if that
 one signed it

---
 .../cert/gnutls/X509Certificate_GnuTLS.cpp    | 17 +++++++++++++-
 .../cert/openssl/X509Certificate_OpenSSL.cpp  | 22 ++++++++++++++++++-
 2 files changed, 37 insertions(+), 2 deletions(-)

diff --git a/src/vmime/security/cert/gnutls/X509Certificate_GnuTLS.cpp b/src/vmime/security/cert/gnutls/X509Certificate_GnuTLS.cpp
index 2ac0ed8..464be74 100644
--- a/src/vmime/security/cert/gnutls/X509Certificate_GnuTLS.cpp
+++ b/src/vmime/security/cert/gnutls/X509Certificate_GnuTLS.cpp
@@ -227,7 +227,22 @@ bool X509Certificate_GnuTLS::checkIssuer(const shared_ptr <const X509Certificate
 	shared_ptr <const X509Certificate_GnuTLS> issuer =
 		dynamicCast <const X509Certificate_GnuTLS>(issuer_);
 
-	return gnutls_x509_crt_check_issuer(m_data->cert, issuer->m_data->cert) >= 1;
+	// This only compares names and key identifiers...
+	if (gnutls_x509_crt_check_issuer(m_data->cert, issuer->m_data->cert) < 1) {
+		return false;
+	}
+
+	// ...so also check that the issuer is allowed to sign certificates, and
+	// that it did sign this one
+	unsigned int verify = 0;
+
+	const int res = gnutls_x509_crt_verify(
+		m_data->cert, &(issuer->m_data->cert), 1,
+		GNUTLS_VERIFY_ALLOW_X509_V1_CA_CRT | GNUTLS_VERIFY_DISABLE_TIME_CHECKS,
+		&verify
+	);
+
+	return res == 0 && verify == 0;
 }
 
 
diff --git a/src/vmime/security/cert/openssl/X509Certificate_OpenSSL.cpp b/src/vmime/security/cert/openssl/X509Certificate_OpenSSL.cpp
index bd5a75d..63d9f9d 100644
--- a/src/vmime/security/cert/openssl/X509Certificate_OpenSSL.cpp
+++ b/src/vmime/security/cert/openssl/X509Certificate_OpenSSL.cpp
@@ -358,7 +358,27 @@ bool X509Certificate_OpenSSL::checkIssuer(const shared_ptr <const X509Certificat
 	vmime::string subjOfIssuer((char*)subject, n);
 	BIO_free(out);
 
-	return subjOfIssuer == thisIssuerName;
+	if (subjOfIssuer != thisIssuerName) {
+		return false;
+	}
+
+	// Also check that the issuer is allowed to sign certificates, and
+	// that it did sign this one
+	if (X509_check_ca(cert->m_data->cert) == 0) {
+		return false;
+	}
+
+	EVP_PKEY* issuerKey = X509_get_pubkey(cert->m_data->cert);
+
+	if (!issuerKey) {
+		return false;
+	}
+
+	const bool verified = (X509_verify(m_data->cert, issuerKey) == 1);
+
+	EVP_PKEY_free(issuerKey);
+
+	return verified;
 }
 
 
-- 
2.43.0


From 1e9ed96c00ccdd7aaa18854fc83505a941ab457d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:21 +0000
Subject: [PATCH 048/118] fix: compare certificates rather than their MD5
 fingerprints

---
 src/vmime/security/cert/gnutls/X509Certificate_GnuTLS.cpp  | 7 +++----
 .../security/cert/openssl/X509Certificate_OpenSSL.cpp      | 7 +++----
 2 files changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/vmime/security/cert/gnutls/X509Certificate_GnuTLS.cpp b/src/vmime/security/cert/gnutls/X509Certificate_GnuTLS.cpp
index 464be74..3bb317c 100644
--- a/src/vmime/security/cert/gnutls/X509Certificate_GnuTLS.cpp
+++ b/src/vmime/security/cert/gnutls/X509Certificate_GnuTLS.cpp
@@ -400,10 +400,9 @@ bool X509Certificate_GnuTLS::equals(const shared_ptr <const certificate>& other)
 		return false;
 	}
 
-	const byteArray fp1 = getFingerprint(DIGEST_MD5);
-	const byteArray fp2 = otherX509->getFingerprint(DIGEST_MD5);
-
-	return fp1 == fp2;
+	// Compare the certificates themselves: different certificates may have
+	// the same MD5 fingerprint, and it may not be available at all
+	return getEncoded() == otherX509->getEncoded();
 }
 
 
diff --git a/src/vmime/security/cert/openssl/X509Certificate_OpenSSL.cpp b/src/vmime/security/cert/openssl/X509Certificate_OpenSSL.cpp
index 63d9f9d..2c8fdf8 100644
--- a/src/vmime/security/cert/openssl/X509Certificate_OpenSSL.cpp
+++ b/src/vmime/security/cert/openssl/X509Certificate_OpenSSL.cpp
@@ -661,10 +661,9 @@ bool X509Certificate_OpenSSL::equals(const shared_ptr <const certificate>& other
 		return false;
 	}
 
-	const byteArray fp1 = getFingerprint(DIGEST_MD5);
-	const byteArray fp2 = otherX509->getFingerprint(DIGEST_MD5);
-
-	return fp1 == fp2;
+	// Compare the certificates themselves: different certificates may have
+	// the same MD5 fingerprint, and it may not be available at all
+	return getEncoded() == otherX509->getEncoded();
 }
 
 
-- 
2.43.0


From a81870e9e06f77b49167bc7a8bae5c86c8e70633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:21 +0000
Subject: [PATCH 049/118] fix: refuse empty certificate chains and chains with
 certificates of other types

---
 .../security/cert/defaultCertificateVerifier.cpp  | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/vmime/security/cert/defaultCertificateVerifier.cpp b/src/vmime/security/cert/defaultCertificateVerifier.cpp
index c41396f..e000993 100644
--- a/src/vmime/security/cert/defaultCertificateVerifier.cpp
+++ b/src/vmime/security/cert/defaultCertificateVerifier.cpp
@@ -62,16 +62,19 @@ void defaultCertificateVerifier::verify(
 ) {
 
 	if (chain->getCount() == 0) {
-		return;
+		throw certificateNotTrustedException();
 	}
 
-	const string type = chain->getAt(0)->getType();
+	for (size_t i = 0 ; i < chain->getCount() ; ++i) {
+
+		const string type = chain->getAt(i)->getType();
 
-	if (type == "X.509") {
-		verifyX509(chain, hostname);
-	} else {
-		throw unsupportedCertificateTypeException(type);
+		if (type != "X.509") {
+			throw unsupportedCertificateTypeException(type);
+		}
 	}
+
+	verifyX509(chain, hostname);
 }
 
 
-- 
2.43.0


From f2a05ffc1abfe9eb80c774a2105d0fcfbfd8e37f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:26 +0000
Subject: [PATCH 050/118] fix: importing a certificate from an empty stream

---
 src/vmime/security/cert/gnutls/X509Certificate_GnuTLS.cpp   | 4 ++--
 src/vmime/security/cert/openssl/X509Certificate_OpenSSL.cpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/vmime/security/cert/gnutls/X509Certificate_GnuTLS.cpp b/src/vmime/security/cert/gnutls/X509Certificate_GnuTLS.cpp
index 3bb317c..79f99e5 100644
--- a/src/vmime/security/cert/gnutls/X509Certificate_GnuTLS.cpp
+++ b/src/vmime/security/cert/gnutls/X509Certificate_GnuTLS.cpp
@@ -106,7 +106,7 @@ shared_ptr <X509Certificate> X509Certificate::import(
 		bytes.insert(bytes.end(), chunk, chunk + len);
 	}
 
-	return import(&bytes[0], bytes.size());
+	return import(bytes.data(), bytes.size());
 }
 
 
@@ -152,7 +152,7 @@ void X509Certificate::import(
 		bytes.insert(bytes.end(), chunk, chunk + len);
 	}
 
-	import(&bytes[0], bytes.size(), certs);
+	import(bytes.data(), bytes.size(), certs);
 }
 
 
diff --git a/src/vmime/security/cert/openssl/X509Certificate_OpenSSL.cpp b/src/vmime/security/cert/openssl/X509Certificate_OpenSSL.cpp
index 2c8fdf8..7626e7d 100644
--- a/src/vmime/security/cert/openssl/X509Certificate_OpenSSL.cpp
+++ b/src/vmime/security/cert/openssl/X509Certificate_OpenSSL.cpp
@@ -196,7 +196,7 @@ shared_ptr <X509Certificate> X509Certificate::import(utility::inputStream& is) {
 		bytes.insert(bytes.end(), chunk, chunk + len);
 	}
 
-	return import(&bytes[0], bytes.size());
+	return import(bytes.data(), bytes.size());
 }
 
 
@@ -235,7 +235,7 @@ void X509Certificate::import(
 		bytes.insert(bytes.end(), chunk, chunk + len);
 	}
 
-	import(&bytes[0], bytes.size(), certs);
+	import(bytes.data(), bytes.size(), certs);
 }
 
 
-- 
2.43.0


From 013ff3115fa48201bf7e3f3526dd30862d8624d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:26 +0000
Subject: [PATCH 051/118] fix: reading from a TLS connection closed by the peer
 fails instead of waiting

---
 src/vmime/net/tls/gnutls/TLSSocket_GnuTLS.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/vmime/net/tls/gnutls/TLSSocket_GnuTLS.cpp b/src/vmime/net/tls/gnutls/TLSSocket_GnuTLS.cpp
index 97466fc..159b463 100644
--- a/src/vmime/net/tls/gnutls/TLSSocket_GnuTLS.cpp
+++ b/src/vmime/net/tls/gnutls/TLSSocket_GnuTLS.cpp
@@ -221,6 +221,11 @@ size_t TLSSocket_GnuTLS::receiveRaw(byte_t* buffer, const size_t count) {
 		TLSSession_GnuTLS::throwTLSException("gnutls_record_recv", static_cast <int>(ret));
 	}
 
+	if (ret == 0 && count != 0) {
+		// The peer has closed the connection
+		throw exceptions::socket_not_connected_exception();
+	}
+
 	return static_cast <size_t>(ret);
 }
 
-- 
2.43.0


From 1509d61de19a11aba8d27dccc391672927685e1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:32 +0000
Subject: [PATCH 052/118] fix: do not keep a missing first item in IMAP FETCH
 responses

---
 src/vmime/net/imap/IMAPParser.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vmime/net/imap/IMAPParser.hpp b/src/vmime/net/imap/IMAPParser.hpp
index d5f99e2..758b0e8 100644
--- a/src/vmime/net/imap/IMAPParser.hpp
+++ b/src/vmime/net/imap/IMAPParser.hpp
@@ -3719,7 +3719,7 @@ public:
 
 			VIMAP_PARSER_CHECK(one_char <'('> );
 
-			items.push_back(std::unique_ptr <msg_att_item>(parser.get <msg_att_item>(line, &pos)));
+			VIMAP_PARSER_GET_PUSHBACK(msg_att_item, items);
 
 			while (!VIMAP_PARSER_TRY_CHECK(one_char <')'> )) {
 				VIMAP_PARSER_CHECK(SPACE);
-- 
2.43.0


From 69102782463fff791b414769af8a47c0c3936f74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:59 +0000
Subject: [PATCH 053/118] fix: ignore IMAP "AUTH=" capability without mechanism
 name

---
 src/vmime/net/imap/IMAPParser.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/vmime/net/imap/IMAPParser.hpp b/src/vmime/net/imap/IMAPParser.hpp
index 758b0e8..8cb66d9 100644
--- a/src/vmime/net/imap/IMAPParser.hpp
+++ b/src/vmime/net/imap/IMAPParser.hpp
@@ -2220,7 +2220,9 @@ public:
 				size_t pos = 5;
 				auth_type.reset(parser.get <IMAPParser::auth_type>(value, &pos));
 
-				atom.reset();
+				if (auth_type) {
+					atom.reset();
+				}
 			}
 
 			*currentPos = pos;
-- 
2.43.0


From bbce9f6ddc5602ac1bddd1353f3eeeacd8c08b07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:59 +0000
Subject: [PATCH 054/118] fix: do not use missing tagged response when fetching
 IMAP capabilities

---
 src/vmime/net/imap/IMAPConnection.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vmime/net/imap/IMAPConnection.cpp b/src/vmime/net/imap/IMAPConnection.cpp
index 44f45f4..c84d3b8 100644
--- a/src/vmime/net/imap/IMAPConnection.cpp
+++ b/src/vmime/net/imap/IMAPConnection.cpp
@@ -650,7 +650,7 @@ void IMAPConnection::fetchCapabilities() {
 
 	scoped_ptr <IMAPParser::response> resp(m_parser->readResponse(*m_tag));
 
-	if (resp->response_done->response_tagged->
+	if (!resp->isBad() && resp->response_done->response_tagged->
 			resp_cond_state->status == IMAPParser::resp_cond_state::OK) {
 
 		processCapabilityResponseData(resp.get());
-- 
2.43.0


From f1ef17c77ca1e656d69178880701457f5b3c27da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:59 +0000
Subject: [PATCH 055/118] fix: parsing of ranges in IMAP sequence sets

---
 src/vmime/net/imap/IMAPParser.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vmime/net/imap/IMAPParser.hpp b/src/vmime/net/imap/IMAPParser.hpp
index 8cb66d9..8735045 100644
--- a/src/vmime/net/imap/IMAPParser.hpp
+++ b/src/vmime/net/imap/IMAPParser.hpp
@@ -1549,7 +1549,7 @@ public:
 
 			VIMAP_PARSER_GET(seq_number, first);
 
-			VIMAP_PARSER_CHECK(one_char <'*'> );
+			VIMAP_PARSER_CHECK(one_char <':'> );
 
 			VIMAP_PARSER_GET(seq_number, last);
 
-- 
2.43.0


From a89f202e41ef7aa70fa729794428c53ee27b2914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:34 +0000
Subject: [PATCH 056/118] fix: parsing of lists in IMAP body extension data

---
 src/vmime/net/imap/IMAPParser.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/vmime/net/imap/IMAPParser.hpp b/src/vmime/net/imap/IMAPParser.hpp
index 8735045..f808d7d 100644
--- a/src/vmime/net/imap/IMAPParser.hpp
+++ b/src/vmime/net/imap/IMAPParser.hpp
@@ -2489,6 +2489,7 @@ public:
 			if (VIMAP_PARSER_TRY_CHECK(one_char <'('> )) {
 
 				VIMAP_PARSER_GET_PUSHBACK(body_extension, body_extensions);
+				VIMAP_PARSER_TRY_CHECK(SPACE);
 
 				while (!VIMAP_PARSER_TRY_CHECK(one_char <')'> )) {
 					VIMAP_PARSER_GET_PUSHBACK(body_extension, body_extensions);
-- 
2.43.0


From 25932def8429a192f9c3a862b349deef832aae3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:34 +0000
Subject: [PATCH 057/118] fix: do not pass missing component to IMAP literal
 handler

---
 src/vmime/net/imap/IMAPParser.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/vmime/net/imap/IMAPParser.hpp b/src/vmime/net/imap/IMAPParser.hpp
index f808d7d..dfcf4f1 100644
--- a/src/vmime/net/imap/IMAPParser.hpp
+++ b/src/vmime/net/imap/IMAPParser.hpp
@@ -1100,7 +1100,7 @@ public:
 					VIMAP_PARSER_GET(quoted_text, text);
 					VIMAP_PARSER_CHECK(one_char <'"'>);
 
-					if (parser.m_literalHandler != NULL) {
+					if (parser.m_literalHandler != NULL && m_component != NULL) {
 
 						shared_ptr <literalHandler::target> target =
 							parser.m_literalHandler->targetFor(*m_component, m_data);
@@ -1148,7 +1148,7 @@ public:
 					VIMAP_PARSER_CHECK(CRLF);
 
 
-					if (parser.m_literalHandler != NULL) {
+					if (parser.m_literalHandler != NULL && m_component != NULL) {
 
 						shared_ptr <literalHandler::target> target =
 							parser.m_literalHandler->targetFor(*m_component, m_data);
-- 
2.43.0


From 458426986414e54d9561f254d59fbb34e1dabc0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:34 +0000
Subject: [PATCH 058/118] fix: IMAP literals read again from the connection
 when another alternative is tried

---
 src/vmime/net/imap/IMAPParser.hpp | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/src/vmime/net/imap/IMAPParser.hpp b/src/vmime/net/imap/IMAPParser.hpp
index dfcf4f1..ae3d7f9 100644
--- a/src/vmime/net/imap/IMAPParser.hpp
+++ b/src/vmime/net/imap/IMAPParser.hpp
@@ -1138,6 +1138,8 @@ public:
 				// literal ::= "{" number "}" CRLF *CHAR8
 				} else if (VIMAP_PARSER_TRY_CHECK(one_char <'{'>)) {
 
+					const size_t literalPos = pos;
+
 					shared_ptr <number> num;
 					VIMAP_PARSER_GET(number, num);
 
@@ -1148,6 +1150,17 @@ public:
 					VIMAP_PARSER_CHECK(CRLF);
 
 
+					auto literal = parser.m_literals.find(literalPos);
+
+					if (literal != parser.m_literals.end()) {
+
+						// Already read while trying another alternative
+						value = literal->second;
+						*currentPos = pos;
+
+						return true;
+					}
+
 					if (parser.m_literalHandler != NULL && m_component != NULL) {
 
 						shared_ptr <literalHandler::target> target =
@@ -1175,6 +1188,8 @@ public:
 
 					line += parser.readLine();
 
+					parser.m_literals[literalPos] = value;
+
 					DEBUG_FOUND("string[literal]", "<length=" << length << ", value='" << value << "'>");
 
 				} else {
@@ -4522,6 +4537,7 @@ public:
 
 				// We have read a CRLF, read another line
 				curLine = parser.readLine();
+				parser.m_literals.clear();
 				pos = 0;
 			}
 
@@ -4638,6 +4654,8 @@ public:
 			size_t pos = 0;
 			string line = readLine();
 
+			m_literals.clear();
+			m_progress = NULL;
 			m_literalHandler = lh;
 			response* resp = get <response>(line, &pos);
 			m_literalHandler = NULL;
@@ -4842,6 +4860,9 @@ private:
 	string m_lastLine;
 	string m_errorResponseLine;
 
+	/** Literals found in the current line (key is the position). */
+	std::map <size_t, string> m_literals;
+
 	std::map <std::string, response*> m_pendingResponses;
 
 public:
-- 
2.43.0


From 28860cea6cfa499f3b27afab72564b1cb32678ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:34 +0000
Subject: [PATCH 059/118] fix: responses lost when the same unexpected tag is
 received twice

---
 src/vmime/net/imap/IMAPParser.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/vmime/net/imap/IMAPParser.hpp b/src/vmime/net/imap/IMAPParser.hpp
index ae3d7f9..261e601 100644
--- a/src/vmime/net/imap/IMAPParser.hpp
+++ b/src/vmime/net/imap/IMAPParser.hpp
@@ -4681,7 +4681,11 @@ public:
 					return resp;
 				} else {
 					// Not our response tag, cache it for later
-					m_pendingResponses[resp->response_done->response_tagged->tag->tagString] = resp;
+					response*& pending =
+						m_pendingResponses[resp->response_done->response_tagged->tag->tagString];
+
+					delete pending;
+					pending = resp;
 				}
 			} else {
 				// Untagged response
-- 
2.43.0


From ea231b33cfed83509995450f4ce1a7dc1df8539f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:34 +0000
Subject: [PATCH 060/118] fix: do not take group delimiters for mailboxes in
 IMAP envelopes

---
 src/vmime/net/imap/IMAPUtils.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/vmime/net/imap/IMAPUtils.cpp b/src/vmime/net/imap/IMAPUtils.cpp
index 9220970..9c43396 100644
--- a/src/vmime/net/imap/IMAPUtils.cpp
+++ b/src/vmime/net/imap/IMAPUtils.cpp
@@ -804,6 +804,11 @@ void IMAPUtils::convertAddressList(
 
 	for (auto& addr : src.addresses) {
 
+		// Start or end of a group (RFC-3501, 7.4.2)
+		if (addr->addr_host->isNIL) {
+			continue;
+		}
+
 		text name;
 		text::decodeAndUnfold(addr->addr_name->value, &name);
 
-- 
2.43.0


From 77c53117cc5ea61f0814d127bf7e6fc39848d0e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:34 +0000
Subject: [PATCH 061/118] fix: name of IMAP message parts is not
 case-sensitive, size of message parts

---
 src/vmime/net/imap/IMAPMessagePart.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/vmime/net/imap/IMAPMessagePart.cpp b/src/vmime/net/imap/IMAPMessagePart.cpp
index ed2c0bd..3f7e37a 100644
--- a/src/vmime/net/imap/IMAPMessagePart.cpp
+++ b/src/vmime/net/imap/IMAPMessagePart.cpp
@@ -57,7 +57,7 @@ namespace {
 	vmime::string getPartName(const T& body_type) {
 		if (const auto* pparam = body_type->body_fields->body_fld_param.get()) {
 			for (const auto& param : pparam->items) {
-				if (param->string1->value == "NAME") {
+				if (utility::stringUtils::isStringEqualNoCase(param->string1->value, "name")) {
 					return param->string2->value;
 				}
 			}
@@ -96,6 +96,10 @@ IMAPMessagePart::IMAPMessagePart(
 			part->body_type_msg->media_message->media_subtype->value
 		);
 
+		m_size = part->body_type_msg->body_fields->body_fld_octets->value;
+
+		m_name = getPartName(part->body_type_msg);
+
 	} else {
 
 		m_mediaType = vmime::mediaType(
-- 
2.43.0


From 965330f639350b59399d0109b942ebfc03485432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:56 +0000
Subject: [PATCH 062/118] fix: IMAP STATUS response without any attribute

---
 src/vmime/net/imap/IMAPFolderStatus.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/vmime/net/imap/IMAPFolderStatus.cpp b/src/vmime/net/imap/IMAPFolderStatus.cpp
index 55df337..4082bea 100644
--- a/src/vmime/net/imap/IMAPFolderStatus.cpp
+++ b/src/vmime/net/imap/IMAPFolderStatus.cpp
@@ -106,6 +106,10 @@ bool IMAPFolderStatus::updateFromResponse(const IMAPParser::mailbox_data& resp)
 
 	if (resp.type == IMAPParser::mailbox_data::STATUS) {
 
+		if (!resp.status_att_list) {
+			return false;
+		}
+
 		for (auto &attval : resp.status_att_list->values) {
 
 			switch (attval->type) {
-- 
2.43.0


From 08752c1cd16b8340f81a252ae18fb58b063989d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:56 +0000
Subject: [PATCH 063/118] fix: message count and new messages after IMAP
 EXPUNGE

---
 src/vmime/net/imap/IMAPFolder.cpp       | 14 ++++++++++----
 src/vmime/net/imap/IMAPFolderStatus.cpp | 14 ++++++++++++++
 src/vmime/net/imap/IMAPFolderStatus.hpp |  7 +++++++
 3 files changed, 31 insertions(+), 4 deletions(-)

diff --git a/src/vmime/net/imap/IMAPFolder.cpp b/src/vmime/net/imap/IMAPFolder.cpp
index 34da36d..afda7cd 100644
--- a/src/vmime/net/imap/IMAPFolder.cpp
+++ b/src/vmime/net/imap/IMAPFolder.cpp
@@ -1603,7 +1603,9 @@ void IMAPFolder::processStatusUpdate(const IMAPParser::response* resp) {
 	std::vector <shared_ptr <events::event> > events;
 
 	shared_ptr <IMAPFolderStatus> oldStatus = vmime::clone(m_status);
-	int expungedMessageCount = 0;
+
+	// Number of messages already there before this response and not expunged since
+	size_t oldMessageCount = oldStatus->getMessageCount();
 
 	// Process tagged response
 	if (resp->response_done &&
@@ -1691,17 +1693,21 @@ void IMAPFolder::processStatusUpdate(const IMAPParser::response* resp) {
 					)
 				);
 
-				expungedMessageCount++;
+				m_status->updateFromResponse(*msgData);
+
+				if (msgNumber <= oldMessageCount) {
+					--oldMessageCount;
+				}
 			}
 		}
 	}
 
 	// New messages arrived
-	if (m_status->getMessageCount() > oldStatus->getMessageCount() - expungedMessageCount) {
+	if (m_status->getMessageCount() > oldMessageCount) {
 
 		std::vector <size_t> newMessageNumbers;
 
-		for (size_t msgNumber = oldStatus->getMessageCount() - expungedMessageCount ;
+		for (size_t msgNumber = oldMessageCount + 1 ;
 		     msgNumber <= m_status->getMessageCount() ; ++msgNumber) {
 
 			newMessageNumbers.push_back(msgNumber);
diff --git a/src/vmime/net/imap/IMAPFolderStatus.cpp b/src/vmime/net/imap/IMAPFolderStatus.cpp
index 4082bea..68a9404 100644
--- a/src/vmime/net/imap/IMAPFolderStatus.cpp
+++ b/src/vmime/net/imap/IMAPFolderStatus.cpp
@@ -288,6 +288,20 @@ bool IMAPFolderStatus::updateFromResponse(const IMAPParser::resp_text_code& resp
 }
 
 
+bool IMAPFolderStatus::updateFromResponse(const IMAPParser::message_data& resp) {
+
+	// "The EXPUNGE response also decrements by one the number of
+	//  messages in the mailbox; it is not necessary to send an
+	//  EXISTS response with the new value." (RFC-3501, 7.4.1)
+	if (resp.type == IMAPParser::message_data::EXPUNGE && m_count > 0) {
+		--m_count;
+		return true;
+	}
+
+	return false;
+}
+
+
 } // imap
 } // net
 } // vmime
diff --git a/src/vmime/net/imap/IMAPFolderStatus.hpp b/src/vmime/net/imap/IMAPFolderStatus.hpp
index b9a73ec..9be8603 100644
--- a/src/vmime/net/imap/IMAPFolderStatus.hpp
+++ b/src/vmime/net/imap/IMAPFolderStatus.hpp
@@ -102,6 +102,13 @@ public:
 	  */
 	bool updateFromResponse(const IMAPParser::resp_text_code& resp);
 
+	/** Reads the folder status from the specified IMAP response.
+	  *
+	  * @param resp parsed IMAP response
+	  * @return true if the status changed, or false otherwise
+	  */
+	bool updateFromResponse(const IMAPParser::message_data& resp);
+
 private:
 
 	size_t m_count;
-- 
2.43.0


From e6eb58de629f6a8675bf63a574361f3df725207b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:56 +0000
Subject: [PATCH 064/118] fix: header fields fetched from IMAP added several
 times to the message header

---
 src/vmime/net/imap/IMAPMessage.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/vmime/net/imap/IMAPMessage.cpp b/src/vmime/net/imap/IMAPMessage.cpp
index fa33b83..687e91c 100644
--- a/src/vmime/net/imap/IMAPMessage.cpp
+++ b/src/vmime/net/imap/IMAPMessage.cpp
@@ -625,6 +625,11 @@ int IMAPMessage::processFetchResponse(
 
 						vmime::header& hdr = *getOrCreateHeader();
 
+						// This response may be processed more than once
+						for (auto& fld : tempHeader.getFieldList()) {
+							hdr.removeAllFields(fld->getName());
+						}
+
 						for (auto& fld : tempHeader.getFieldList()) {
 							hdr.appendField(vmime::clone(fld));
 						}
-- 
2.43.0


From b86d3c21f44a5c52ab542ef64c1dae4c20219a61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:56 +0000
Subject: [PATCH 065/118] fix: path of sub-folders after an IMAP folder has
 been renamed

---
 src/vmime/net/imap/IMAPFolder.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/vmime/net/imap/IMAPFolder.cpp b/src/vmime/net/imap/IMAPFolder.cpp
index afda7cd..0acbd84 100644
--- a/src/vmime/net/imap/IMAPFolder.cpp
+++ b/src/vmime/net/imap/IMAPFolder.cpp
@@ -1296,7 +1296,7 @@ void IMAPFolder::rename(const folder::path& newPath) {
 
 		if ((*it) != this && oldPath.isParentOf((*it)->getFullPath())) {
 
-			folder::path oldPath((*it)->m_path);
+			folder::path oldSubPath((*it)->m_path);
 
 			(*it)->m_path.renameParent(oldPath, newPath);
 
@@ -1304,7 +1304,7 @@ void IMAPFolder::rename(const folder::path& newPath) {
 				make_shared <events::folderEvent>(
 					dynamicCast <folder>((*it)->shared_from_this()),
 					events::folderEvent::TYPE_RENAMED,
-					oldPath, (*it)->m_path
+					oldSubPath, (*it)->m_path
 				);
 
 			(*it)->notifyFolder(event);
-- 
2.43.0


From 63a833308de8f9a9f3f447eb2ceb2d10d7eac899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:56 +0000
Subject: [PATCH 066/118] fix: recursive listing of IMAP folders returns only
 sub-folders

---
 src/vmime/net/imap/IMAPFolder.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/vmime/net/imap/IMAPFolder.cpp b/src/vmime/net/imap/IMAPFolder.cpp
index 0acbd84..f050e84 100644
--- a/src/vmime/net/imap/IMAPFolder.cpp
+++ b/src/vmime/net/imap/IMAPFolder.cpp
@@ -713,18 +713,18 @@ std::vector <shared_ptr <folder> > IMAPFolder::getFolders(const bool recursive)
 		m_connection->hierarchySeparator(), getFullPath()
 	);
 
+	const string reference =
+		pathString.empty()
+			? ""
+			: (pathString + m_connection->hierarchySeparator());
+
 	if (recursive) {
 
-		cmd = IMAPCommand::LIST(pathString, "*");
+		cmd = IMAPCommand::LIST(reference, "*");
 
 	} else {
 
-		cmd = IMAPCommand::LIST(
-			pathString.empty()
-				? ""
-				: (pathString + m_connection->hierarchySeparator()),
-			"%"
-		);
+		cmd = IMAPCommand::LIST(reference, "%");
 	}
 
 	cmd->send(m_connection);
@@ -761,7 +761,7 @@ std::vector <shared_ptr <folder> > IMAPFolder::getFolders(const bool recursive)
 			mailboxData->mailbox_list->quoted_char, mailbox->name
 		);
 
-		if (recursive || m_path.isDirectParentOf(path)) {
+		if (recursive ? m_path.isParentOf(path) : m_path.isDirectParentOf(path)) {
 
 			// Append folder to list
 			shared_ptr <folderAttributes> attribs = make_shared <folderAttributes>();
-- 
2.43.0


From a66ca10e5694b5d4788f8aa1111ff28a03cfd64a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:56 +0000
Subject: [PATCH 067/118] fix: mode of an IMAP folder is the one which has been
 given by the server

---
 src/vmime/net/imap/IMAPFolder.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/vmime/net/imap/IMAPFolder.cpp b/src/vmime/net/imap/IMAPFolder.cpp
index f050e84..4ab8366 100644
--- a/src/vmime/net/imap/IMAPFolder.cpp
+++ b/src/vmime/net/imap/IMAPFolder.cpp
@@ -262,6 +262,8 @@ void IMAPFolder::open(const int mode, bool failIfModeIsNotAvailable) {
 		processStatusUpdate(resp.get());
 
 		// Check for access mode (read-only or read-write)
+		int availableMode = mode;
+
 		auto *respTextCode = resp->response_done->response_tagged->resp_cond_state->resp_text->resp_text_code.get();
 
 		if (respTextCode) {
@@ -276,11 +278,15 @@ void IMAPFolder::open(const int mode, bool failIfModeIsNotAvailable) {
 
 				throw exceptions::operation_not_supported();
 			}
+
+			if (respTextCode->type == IMAPParser::resp_text_code::READ_ONLY) {
+				availableMode = MODE_READ_ONLY;
+			}
 		}
 
 		m_connection = connection;
 		m_open = true;
-		m_mode = mode;
+		m_mode = availableMode;
 
 	} catch (std::exception&) {
 
-- 
2.43.0


From 21c24147cef4f40ce65f7d4fdbe2fc28f3620d5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:30 +0000
Subject: [PATCH 068/118] fix: take status updates into account when getting
 IMAP messages

---
 src/vmime/net/imap/IMAPFolder.cpp | 43 +++++++++++++++++++++++++++++--
 1 file changed, 41 insertions(+), 2 deletions(-)

diff --git a/src/vmime/net/imap/IMAPFolder.cpp b/src/vmime/net/imap/IMAPFolder.cpp
index 4ab8366..bc56772 100644
--- a/src/vmime/net/imap/IMAPFolder.cpp
+++ b/src/vmime/net/imap/IMAPFolder.cpp
@@ -52,6 +52,29 @@ namespace net {
 namespace imap {
 
 
+namespace {
+
+	/** Returns the number a message had before some messages were expunged
+	  * (renumbering is done later, in processStatusUpdate()).
+	  *
+	  * @param number message number
+	  * @param expunged numbers in the EXPUNGE responses received before
+	  * @return message number, before the messages were expunged
+	  */
+	size_t numberBeforeExpunge(size_t number, const std::vector <size_t>& expunged) {
+
+		for (auto it = expunged.rbegin() ; it != expunged.rend() ; ++it) {
+			if (number >= *it) {
+				++number;
+			}
+		}
+
+		return number;
+	}
+
+}
+
+
 IMAPFolder::IMAPFolder(
 	const folder::path& path,
 	const shared_ptr <IMAPStore>& store,
@@ -620,6 +643,7 @@ std::vector <shared_ptr <message> > IMAPFolder::getMessages(const messageSet& ms
 
 	// Process the response
 	auto &respDataList = resp->continue_req_or_response_data;
+	std::vector <size_t> expungedNumbers;
 
 	for (auto it = respDataList.begin() ; it != respDataList.end() ; ++it) {
 
@@ -629,13 +653,19 @@ std::vector <shared_ptr <message> > IMAPFolder::getMessages(const messageSet& ms
 
 		auto *messageData = (*it)->response_data->message_data.get();
 
+		// A message has been expunged: next message numbers take it into account
+		if (messageData && messageData->type == IMAPParser::message_data::EXPUNGE) {
+			expungedNumbers.push_back(messageData->number);
+			continue;
+		}
+
 		// We are only interested in responses of type "FETCH"
 		if (!messageData || messageData->type != IMAPParser::message_data::FETCH) {
 			continue;
 		}
 
 		// Find UID in message attributes
-		const size_t msgNum = messageData->number;
+		const size_t msgNum = numberBeforeExpunge(messageData->number, expungedNumbers);
 		message::uid msgUID;
 
 		for (auto &att : messageData->msg_att->items) {
@@ -652,6 +682,8 @@ std::vector <shared_ptr <message> > IMAPFolder::getMessages(const messageSet& ms
 		}
 	}
 
+	processStatusUpdate(resp.get());
+
 	return messages;
 }
 
@@ -932,6 +964,7 @@ std::vector <shared_ptr <message> > IMAPFolder::getAndFetchMessages(
 	auto &respDataList = resp->continue_req_or_response_data;
 
 	std::vector <shared_ptr <message> > messages;
+	std::vector <size_t> expungedNumbers;
 
 	for (auto it = respDataList.begin() ; it != respDataList.end() ; ++it) {
 
@@ -941,13 +974,19 @@ std::vector <shared_ptr <message> > IMAPFolder::getAndFetchMessages(
 
 		auto *messageData = (*it)->response_data->message_data.get();
 
+		// A message has been expunged: next message numbers take it into account
+		if (messageData && messageData->type == IMAPParser::message_data::EXPUNGE) {
+			expungedNumbers.push_back(messageData->number);
+			continue;
+		}
+
 		// We are only interested in responses of type "FETCH"
 		if (!messageData || messageData->type != IMAPParser::message_data::FETCH) {
 			continue;
 		}
 
 		// Get message number
-		const size_t msgNum = messageData->number;
+		const size_t msgNum = numberBeforeExpunge(messageData->number, expungedNumbers);
 
 		// Get message UID
 		message::uid msgUID;
-- 
2.43.0


From f8365abdd192d3a6eee72967f9e85a2b268d0f19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:30 +0000
Subject: [PATCH 069/118] fix: take status updates into account when extracting
 an IMAP message

---
 src/vmime/net/imap/IMAPMessage.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/vmime/net/imap/IMAPMessage.cpp b/src/vmime/net/imap/IMAPMessage.cpp
index 687e91c..e150220 100644
--- a/src/vmime/net/imap/IMAPMessage.cpp
+++ b/src/vmime/net/imap/IMAPMessage.cpp
@@ -318,7 +318,7 @@ size_t IMAPMessage::extractImpl(
 	const int extractFlags
 ) const {
 
-	shared_ptr <const IMAPFolder> folder = m_folder.lock();
+	shared_ptr <IMAPFolder> folder = m_folder.lock();
 
 	if (!folder) {
 		throw exceptions::folder_not_found();
@@ -476,6 +476,8 @@ size_t IMAPMessage::extractImpl(
 		throw exceptions::command_error("FETCH", resp->getErrorLog(), "bad response");
 	}
 
+	// Some messages may have been expunged, for example
+	folder->processStatusUpdate(resp.get());
 
 	if (extractFlags & EXTRACT_BODY) {
 		// TODO: update the flags (eg. flag "\Seen" may have been set)
-- 
2.43.0


From 467b96de8cc8a23b9dcb947a113b66161f2f91c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:30 +0000
Subject: [PATCH 070/118] fix: notify IMAP flags change only if the server sent
 the flags

---
 src/vmime/net/imap/IMAPFolder.cpp | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/src/vmime/net/imap/IMAPFolder.cpp b/src/vmime/net/imap/IMAPFolder.cpp
index bc56772..5efd859 100644
--- a/src/vmime/net/imap/IMAPFolder.cpp
+++ b/src/vmime/net/imap/IMAPFolder.cpp
@@ -1704,19 +1704,29 @@ void IMAPFolder::processStatusUpdate(const IMAPParser::response* resp) {
 				for (std::vector <IMAPMessage*>::iterator mit =
 				     m_messages.begin() ; mit != m_messages.end() ; ++mit) {
 
-					if ((*mit)->getNumber() == msgNumber) {
+					if ((*mit)->getNumber() == msgNumber && !(*mit)->isExpunged()) {
 						(*mit)->processFetchResponse(/* options */ 0, *msgData);
 					}
 				}
 
-				events.push_back(
-					make_shared <events::messageChangedEvent>(
-						dynamicCast <folder>(shared_from_this()),
-						events::messageChangedEvent::TYPE_FLAGS,
-						std::vector <size_t>(1, msgNumber)
-					)
+				const bool hasFlags = std::any_of(
+					msgData->msg_att->items.begin(), msgData->msg_att->items.end(),
+					[](const std::unique_ptr <IMAPParser::msg_att_item>& att) {
+						return att->type == IMAPParser::msg_att_item::FLAGS;
+					}
 				);
 
+				if (hasFlags) {
+
+					events.push_back(
+						make_shared <events::messageChangedEvent>(
+							dynamicCast <folder>(shared_from_this()),
+							events::messageChangedEvent::TYPE_FLAGS,
+							std::vector <size_t>(1, msgNumber)
+						)
+					);
+				}
+
 			} else if (msgData->type == IMAPParser::message_data::EXPUNGE) {
 
 				// A message has been expunged, renumber messages
-- 
2.43.0


From 2053d9143fe48525ea81d40dc54d29f288b6765a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:08 +0000
Subject: [PATCH 071/118] fix: endless loop on an invalid header list in an
 IMAP response

---
 src/vmime/net/imap/IMAPParser.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/vmime/net/imap/IMAPParser.hpp b/src/vmime/net/imap/IMAPParser.hpp
index 261e601..0aa5c34 100644
--- a/src/vmime/net/imap/IMAPParser.hpp
+++ b/src/vmime/net/imap/IMAPParser.hpp
@@ -2471,7 +2471,12 @@ public:
 			VIMAP_PARSER_CHECK(one_char <'('> );
 
 			while (!VIMAP_PARSER_TRY_CHECK(one_char <')'> )) {
+
+				const size_t namePos = pos;
+
 				VIMAP_PARSER_GET_PUSHBACK(header_fld_name, fld_names);
+				VIMAP_PARSER_FAIL_UNLESS(pos != namePos);  // name cannot be empty
+
 				VIMAP_PARSER_TRY_CHECK(SPACE);
 			}
 
-- 
2.43.0


From 4948129f37dbd950dfeaae74ef2f7f0c65df008d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:13 +0000
Subject: [PATCH 072/118] fix: INTERNALDATE in IMAP responses

---
 src/vmime/net/imap/IMAPParser.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/vmime/net/imap/IMAPParser.hpp b/src/vmime/net/imap/IMAPParser.hpp
index 0aa5c34..92bc4b2 100644
--- a/src/vmime/net/imap/IMAPParser.hpp
+++ b/src/vmime/net/imap/IMAPParser.hpp
@@ -2333,8 +2333,8 @@ public:
 
 			VIMAP_PARSER_CHECK(one_char <'-'> );
 
-			shared_ptr <atom> amo;
-			VIMAP_PARSER_GET(atom, amo);
+			shared_ptr <text> amo;
+			VIMAP_PARSER_GET(text_except <'-'> , amo);  // an atom would include the '-'
 
 			VIMAP_PARSER_CHECK(one_char <'-'> );
 
@@ -2364,6 +2364,7 @@ public:
 
 			if (!(VIMAP_PARSER_TRY_CHECK(one_char <'+'> ))) {
 				VIMAP_PARSER_CHECK(one_char <'-'> );
+				sign = -1;
 			}
 
 			shared_ptr <number> nz;
-- 
2.43.0


From 064f5988c1e87c33c0f89c3bb581486853ac4017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:18 +0000
Subject: [PATCH 073/118] fix: last IMAP message returned when starting on a
 greater UID

---
 src/vmime/net/imap/IMAPFolder.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/vmime/net/imap/IMAPFolder.cpp b/src/vmime/net/imap/IMAPFolder.cpp
index 5efd859..86608b3 100644
--- a/src/vmime/net/imap/IMAPFolder.cpp
+++ b/src/vmime/net/imap/IMAPFolder.cpp
@@ -1501,7 +1501,9 @@ std::vector <size_t> IMAPFolder::getMessageNumbersStartingOnUID(const message::u
 	// Send the request
 	std::ostringstream uidSearchKey;
 	uidSearchKey.imbue(std::locale::classic());
-	uidSearchKey << "UID " << uid << ":*";
+	// "*" would also match the last message if its UID is lower than
+	// the specified UID (RFC-3501, 6.4.8)
+	uidSearchKey << "UID " << uid << ":4294967295";
 
 	std::vector <string> searchKeys;
 	searchKeys.push_back(uidSearchKey.str());
-- 
2.43.0


From b759f0971d5640049f646e9103660f7854a02d7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:02 +0000
Subject: [PATCH 074/118] fix: operations on an expunged IMAP message done on
 another message

---
 src/vmime/net/imap/IMAPFolder.cpp  |  9 +++++++++
 src/vmime/net/imap/IMAPMessage.cpp | 10 +++++++++-
 2 files changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/vmime/net/imap/IMAPFolder.cpp b/src/vmime/net/imap/IMAPFolder.cpp
index 86608b3..770cea0 100644
--- a/src/vmime/net/imap/IMAPFolder.cpp
+++ b/src/vmime/net/imap/IMAPFolder.cpp
@@ -845,10 +845,19 @@ void IMAPFolder::fetchMessages(
 
 	for (std::vector <shared_ptr <message> >::iterator it = msg.begin() ; it != msg.end() ; ++it) {
 
+		// Another message may have the number of an expunged message
+		if ((*it)->isExpunged()) {
+			continue;
+		}
+
 		list.push_back((*it)->getNumber());
 		numberToMsg[(*it)->getNumber()] = dynamicCast <IMAPMessage>(*it);
 	}
 
+	if (list.empty()) {
+		return;
+	}
+
 	// Send the request
 	IMAPUtils::buildFetchCommand(
 		m_connection, messageSet::byNumber(list), options
diff --git a/src/vmime/net/imap/IMAPMessage.cpp b/src/vmime/net/imap/IMAPMessage.cpp
index e150220..5885b27 100644
--- a/src/vmime/net/imap/IMAPMessage.cpp
+++ b/src/vmime/net/imap/IMAPMessage.cpp
@@ -327,7 +327,11 @@ size_t IMAPMessage::extractImpl(
 	if (!folder->isOpen()) {
 		throw exceptions::illegal_state("Folder not open");
 	}
-	
+
+	if (m_expunged) {
+		throw exceptions::message_not_found();
+	}
+
 	IMAPMessage_literalHandler literalHandler(os, progress);
 
 	if (length == 0) {
@@ -673,6 +677,10 @@ void IMAPMessage::setFlags(const int flags, const int mode) {
 		throw exceptions::folder_not_found();
 	}
 
+	if (m_expunged) {
+		throw exceptions::message_not_found();
+	}
+
 	if (!m_uid.empty()) {
 		folder->setMessageFlags(messageSet::byUID(m_uid), flags, mode);
 	} else {
-- 
2.43.0


From 2f7f5beeb4d63533bb6d940ee9d4f5c0e793ab8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:16 +0000
Subject: [PATCH 075/118] fix: extracting an IMAP message expunged meanwhile
 gives an error instead of nothing

---
 src/vmime/net/imap/IMAPMessage.cpp | 28 ++++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/src/vmime/net/imap/IMAPMessage.cpp b/src/vmime/net/imap/IMAPMessage.cpp
index 5885b27..fd2e757 100644
--- a/src/vmime/net/imap/IMAPMessage.cpp
+++ b/src/vmime/net/imap/IMAPMessage.cpp
@@ -42,6 +42,7 @@
 #include "vmime/messageIdSequence.hpp"
 #include "vmime/utility/outputStreamAdapter.hpp"
 
+#include <algorithm>
 #include <sstream>
 #include <iterator>
 #include <typeinfo>
@@ -483,6 +484,33 @@ size_t IMAPMessage::extractImpl(
 	// Some messages may have been expunged, for example
 	folder->processStatusUpdate(resp.get());
 
+	// No data is sent by the server if this message has been expunged
+	auto &respDataList = resp->continue_req_or_response_data;
+
+	const bool hasData = std::any_of(
+		respDataList.begin(), respDataList.end(),
+		[](const std::unique_ptr <IMAPParser::continue_req_or_response_data>& data) {
+
+			if (!data->response_data || !data->response_data->message_data ||
+			    data->response_data->message_data->type != IMAPParser::message_data::FETCH) {
+				return false;
+			}
+
+			auto &items = data->response_data->message_data->msg_att->items;
+
+			return std::any_of(
+				items.begin(), items.end(),
+				[](const std::unique_ptr <IMAPParser::msg_att_item>& att) {
+					return att->type == IMAPParser::msg_att_item::BODY_SECTION;
+				}
+			);
+		}
+	);
+
+	if (!hasData) {
+		throw exceptions::message_not_found();
+	}
+
 	if (extractFlags & EXTRACT_BODY) {
 		// TODO: update the flags (eg. flag "\Seen" may have been set)
 	}
-- 
2.43.0


From 02aae51519de4faa49be2ac58d3ee802f72e9e48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:16 +0000
Subject: [PATCH 076/118] fix: do not notify removal of an IMAP message which
 has not been notified before

---
 src/vmime/net/imap/IMAPFolder.cpp | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/vmime/net/imap/IMAPFolder.cpp b/src/vmime/net/imap/IMAPFolder.cpp
index 770cea0..eb59977 100644
--- a/src/vmime/net/imap/IMAPFolder.cpp
+++ b/src/vmime/net/imap/IMAPFolder.cpp
@@ -1751,17 +1751,19 @@ void IMAPFolder::processStatusUpdate(const IMAPParser::response* resp) {
 					}
 				}
 
-				events.push_back(
-					make_shared <events::messageCountEvent>(
-						dynamicCast <folder>(shared_from_this()),
-						events::messageCountEvent::TYPE_REMOVED,
-						std::vector <size_t>(1, msgNumber)
-					)
-				);
-
 				m_status->updateFromResponse(*msgData);
 
+				// Do not notify removal of a message which has not been notified
 				if (msgNumber <= oldMessageCount) {
+
+					events.push_back(
+						make_shared <events::messageCountEvent>(
+							dynamicCast <folder>(shared_from_this()),
+							events::messageCountEvent::TYPE_REMOVED,
+							std::vector <size_t>(1, msgNumber)
+						)
+					);
+
 					--oldMessageCount;
 				}
 			}
-- 
2.43.0


From ccd03b15a8360fb9a794079d2c0a2a100c190a99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:16 +0000
Subject: [PATCH 077/118] fix: IMAP messages not requested returned when their
 flags change

---
 src/vmime/net/imap/IMAPFolder.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/vmime/net/imap/IMAPFolder.cpp b/src/vmime/net/imap/IMAPFolder.cpp
index eb59977..1270790 100644
--- a/src/vmime/net/imap/IMAPFolder.cpp
+++ b/src/vmime/net/imap/IMAPFolder.cpp
@@ -1008,6 +1008,11 @@ std::vector <shared_ptr <message> > IMAPFolder::getAndFetchMessages(
 			}
 		}
 
+		// Not requested (eg. flags of another message have changed)
+		if (msgUID.empty()) {
+			continue;
+		}
+
 		// Create a new message reference
 		shared_ptr <IMAPFolder> thisFolder = dynamicCast <IMAPFolder>(shared_from_this());
 		shared_ptr <IMAPMessage> msg = make_shared <IMAPMessage>(thisFolder, msgNum, msgUID);
-- 
2.43.0


From 5a18c8debc68846e321043b668dac72dd501fb9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:01 +0000
Subject: [PATCH 078/118] fix: updates received with an IMAP STATUS response,
 number of messages of the selected folder

---
 src/vmime/net/imap/IMAPFolder.cpp       |  7 +++++--
 src/vmime/net/imap/IMAPFolderStatus.cpp | 11 ++++++++++-
 src/vmime/net/imap/IMAPFolderStatus.hpp |  5 ++++-
 3 files changed, 19 insertions(+), 4 deletions(-)

diff --git a/src/vmime/net/imap/IMAPFolder.cpp b/src/vmime/net/imap/IMAPFolder.cpp
index 1270790..0dff9b9 100644
--- a/src/vmime/net/imap/IMAPFolder.cpp
+++ b/src/vmime/net/imap/IMAPFolder.cpp
@@ -1473,7 +1473,8 @@ shared_ptr <folderStatus> IMAPFolder::getStatus() {
 				shared_ptr <IMAPFolderStatus> status = make_shared <IMAPFolderStatus>();
 				status->updateFromResponse(*responseData->mailbox_data);
 
-				m_status->updateFromResponse(*responseData->mailbox_data);
+				m_status->updateFromResponse(*responseData->mailbox_data, isOpen());
+				processStatusUpdate(resp.get());
 
 				return status;
 			}
@@ -1693,7 +1694,9 @@ void IMAPFolder::processStatusUpdate(const IMAPParser::response* resp) {
 		} else if ((*it)->response_data &&
 		           (*it)->response_data->mailbox_data) {
 
-			m_status->updateFromResponse(*(*it)->response_data->mailbox_data);
+			if ((*it)->response_data->mailbox_data->type != IMAPParser::mailbox_data::STATUS) {
+				m_status->updateFromResponse(*(*it)->response_data->mailbox_data);
+			}
 
 			// Update folder attributes, if available
 			if ((*it)->response_data->mailbox_data->type == IMAPParser::mailbox_data::LIST) {
diff --git a/src/vmime/net/imap/IMAPFolderStatus.cpp b/src/vmime/net/imap/IMAPFolderStatus.cpp
index 68a9404..e0754bd 100644
--- a/src/vmime/net/imap/IMAPFolderStatus.cpp
+++ b/src/vmime/net/imap/IMAPFolderStatus.cpp
@@ -100,7 +100,7 @@ shared_ptr <folderStatus> IMAPFolderStatus::clone() const {
 }
 
 
-bool IMAPFolderStatus::updateFromResponse(const IMAPParser::mailbox_data& resp) {
+bool IMAPFolderStatus::updateFromResponse(const IMAPParser::mailbox_data& resp, const bool selected) {
 
 	bool changed = false;
 
@@ -112,6 +112,15 @@ bool IMAPFolderStatus::updateFromResponse(const IMAPParser::mailbox_data& resp)
 
 		for (auto &attval : resp.status_att_list->values) {
 
+			// The messages of a selected mailbox are those given by
+			// EXISTS, RECENT and EXPUNGE responses (RFC-3501, 6.3.10)
+			if (selected &&
+			    (attval->type == IMAPParser::status_att_val::MESSAGES ||
+			     attval->type == IMAPParser::status_att_val::RECENT)) {
+
+				continue;
+			}
+
 			switch (attval->type) {
 
 				case IMAPParser::status_att_val::MESSAGES: {
diff --git a/src/vmime/net/imap/IMAPFolderStatus.hpp b/src/vmime/net/imap/IMAPFolderStatus.hpp
index 9be8603..a3d7872 100644
--- a/src/vmime/net/imap/IMAPFolderStatus.hpp
+++ b/src/vmime/net/imap/IMAPFolderStatus.hpp
@@ -91,9 +91,12 @@ public:
 	/** Reads the folder status from the specified IMAP response.
 	  *
 	  * @param resp parsed IMAP response
+	  * @param selected true if the response is about the mailbox which is
+	  * currently selected, so that the number of messages is not updated
+	  * from a STATUS response
 	  * @return true if the status changed, or false otherwise
 	  */
-	bool updateFromResponse(const IMAPParser::mailbox_data& resp);
+	bool updateFromResponse(const IMAPParser::mailbox_data& resp, const bool selected = false);
 
 	/** Reads the folder status from the specified IMAP response.
 	  *
-- 
2.43.0


From eeed0a5df6260c197e344f26d90cd46c9bc80610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:46 +0000
Subject: [PATCH 079/118] fix: updates received with an IMAP error or LIST
 response, attributes of the folder after listing its sub-folders

---
 src/vmime/net/imap/IMAPFolder.cpp  | 29 +++++++++++++++++++++++++++--
 src/vmime/net/imap/IMAPMessage.cpp |  1 +
 2 files changed, 28 insertions(+), 2 deletions(-)

diff --git a/src/vmime/net/imap/IMAPFolder.cpp b/src/vmime/net/imap/IMAPFolder.cpp
index 0dff9b9..ae5529b 100644
--- a/src/vmime/net/imap/IMAPFolder.cpp
+++ b/src/vmime/net/imap/IMAPFolder.cpp
@@ -545,6 +545,7 @@ int IMAPFolder::testExistAndGetType() {
 	if (resp->isBad() || resp->response_done->response_tagged->
 			resp_cond_state->status != IMAPParser::resp_cond_state::OK) {
 
+		processStatusUpdate(resp.get());
 		throw exceptions::command_error("LIST", resp->getErrorLog(), "bad response");
 	}
 
@@ -576,6 +577,8 @@ int IMAPFolder::testExistAndGetType() {
 		}
 	}
 
+	processStatusUpdate(resp.get());
+
 	m_attribs = make_shared <folderAttributes>(attribs);
 
 	return m_attribs->getType();
@@ -638,6 +641,7 @@ std::vector <shared_ptr <message> > IMAPFolder::getMessages(const messageSet& ms
 	if (resp->isBad() || resp->response_done->response_tagged->
 			resp_cond_state->status != IMAPParser::resp_cond_state::OK) {
 
+		processStatusUpdate(resp.get());
 		throw exceptions::command_error("UID FETCH ... UID", resp->getErrorLog(), "bad response");
 	}
 
@@ -773,6 +777,7 @@ std::vector <shared_ptr <folder> > IMAPFolder::getFolders(const bool recursive)
 	if (resp->isBad() || resp->response_done->response_tagged->
 			resp_cond_state->status != IMAPParser::resp_cond_state::OK) {
 
+		processStatusUpdate(resp.get());
 		throw exceptions::command_error("LIST", resp->getErrorLog(), "bad response");
 	}
 
@@ -815,6 +820,8 @@ std::vector <shared_ptr <folder> > IMAPFolder::getFolders(const bool recursive)
 		}
 	}
 
+	processStatusUpdate(resp.get());
+
 	return v;
 }
 
@@ -869,6 +876,7 @@ void IMAPFolder::fetchMessages(
 	if (resp->isBad() || resp->response_done->response_tagged->
 		resp_cond_state->status != IMAPParser::resp_cond_state::OK) {
 
+		processStatusUpdate(resp.get());
 		throw exceptions::command_error("FETCH", resp->getErrorLog(), "bad response");
 	}
 
@@ -967,6 +975,7 @@ std::vector <shared_ptr <message> > IMAPFolder::getAndFetchMessages(
 	if (resp->isBad() || resp->response_done->response_tagged->
 		resp_cond_state->status != IMAPParser::resp_cond_state::OK) {
 
+		processStatusUpdate(resp.get());
 		throw exceptions::command_error("FETCH", resp->getErrorLog(), "bad response");
 	}
 
@@ -1117,6 +1126,7 @@ void IMAPFolder::deleteMessages(const messageSet& msgs) {
 	if (resp->isBad() || resp->response_done->response_tagged->
 		resp_cond_state->status != IMAPParser::resp_cond_state::OK) {
 
+		processStatusUpdate(resp.get());
 		throw exceptions::command_error("STORE", resp->getErrorLog(), "bad response");
 	}
 
@@ -1143,6 +1153,7 @@ void IMAPFolder::setMessageFlags(
 		if (resp->isBad() || resp->response_done->response_tagged->
 			resp_cond_state->status != IMAPParser::resp_cond_state::OK) {
 
+			processStatusUpdate(resp.get());
 			throw exceptions::command_error("STORE", resp->getErrorLog(), "bad response");
 		}
 
@@ -1208,6 +1219,8 @@ messageSet IMAPFolder::addMessage(
 	}
 
 	if (!ok) {
+
+		processStatusUpdate(resp.get());
 		throw exceptions::command_error("APPEND", resp->getErrorLog(), "bad response");
 	}
 
@@ -1260,7 +1273,8 @@ messageSet IMAPFolder::addMessage(
 	if (finalResp->isBad() || finalResp->response_done->response_tagged->
 			resp_cond_state->status != IMAPParser::resp_cond_state::OK) {
 
-		throw exceptions::command_error("APPEND", resp->getErrorLog(), "bad response");
+		processStatusUpdate(finalResp.get());
+		throw exceptions::command_error("APPEND", finalResp->getErrorLog(), "bad response");
 	}
 
 	processStatusUpdate(finalResp.get());
@@ -1297,6 +1311,7 @@ void IMAPFolder::expunge() {
 	if (resp->isBad() || resp->response_done->response_tagged->
 		resp_cond_state->status != IMAPParser::resp_cond_state::OK) {
 
+		processStatusUpdate(resp.get());
 		throw exceptions::command_error("EXPUNGE", resp->getErrorLog(), "bad response");
 	}
 
@@ -1330,6 +1345,7 @@ void IMAPFolder::rename(const folder::path& newPath) {
 	if (resp->isBad() || resp->response_done->response_tagged->
 		resp_cond_state->status != IMAPParser::resp_cond_state::OK) {
 
+		processStatusUpdate(resp.get());
 		throw exceptions::command_error("RENAME", resp->getErrorLog(), "bad response");
 	}
 
@@ -1396,6 +1412,7 @@ messageSet IMAPFolder::copyMessages(const folder::path& dest, const messageSet&
 	if (resp->isBad() || resp->response_done->response_tagged->
 		resp_cond_state->status != IMAPParser::resp_cond_state::OK) {
 
+		processStatusUpdate(resp.get());
 		throw exceptions::command_error("COPY", resp->getErrorLog(), "bad response");
 	}
 
@@ -1456,6 +1473,7 @@ shared_ptr <folderStatus> IMAPFolder::getStatus() {
 	if (resp->isBad() || resp->response_done->response_tagged->
 			resp_cond_state->status != IMAPParser::resp_cond_state::OK) {
 
+		processStatusUpdate(resp.get());
 		throw exceptions::command_error("STATUS", resp->getErrorLog(), "bad response");
 	}
 
@@ -1504,6 +1522,7 @@ void IMAPFolder::noop() {
 	if (resp->isBad() || resp->response_done->response_tagged->
 			resp_cond_state->status != IMAPParser::resp_cond_state::OK) {
 
+		processStatusUpdate(resp.get());
 		throw exceptions::command_error("NOOP", resp->getErrorLog());
 	}
 
@@ -1531,6 +1550,7 @@ std::vector <size_t> IMAPFolder::getMessageNumbersStartingOnUID(const message::u
 	if (resp->isBad() ||
 	    resp->response_done->response_tagged->resp_cond_state->status != IMAPParser::resp_cond_state::OK) {
 
+		processStatusUpdate(resp.get());
 		throw exceptions::command_error("SEARCH", resp->getErrorLog(), "bad response");
 	}
 
@@ -1579,6 +1599,7 @@ std::vector <size_t> IMAPFolder::getMessageNumbersMatchingSearchAttributes(
 	if (resp->isBad() ||
 		resp->response_done->response_tagged->resp_cond_state->status != IMAPParser::resp_cond_state::OK) {
 
+		processStatusUpdate(resp.get());
 		throw exceptions::command_error("SEARCH", resp->getErrorLog(), "bad response");
 	}
 
@@ -1627,6 +1648,7 @@ std::vector <message::uid> IMAPFolder::getMessageUIDsMatchingSearchAttributes(
 	if (resp->isBad() ||
 		resp->response_done->response_tagged->resp_cond_state->status != IMAPParser::resp_cond_state::OK) {
 
+		processStatusUpdate(resp.get());
 		throw exceptions::command_error("UIDSEARCH", resp->getErrorLog(), "bad response");
 	}
 
@@ -1699,7 +1721,10 @@ void IMAPFolder::processStatusUpdate(const IMAPParser::response* resp) {
 			}
 
 			// Update folder attributes, if available
-			if ((*it)->response_data->mailbox_data->type == IMAPParser::mailbox_data::LIST) {
+			if ((*it)->response_data->mailbox_data->type == IMAPParser::mailbox_data::LIST &&
+			    m_path == IMAPUtils::stringToPath(
+					(*it)->response_data->mailbox_data->mailbox_list->quoted_char,
+					(*it)->response_data->mailbox_data->mailbox_list->mailbox->name)) {
 
 				folderAttributes attribs;
 				IMAPUtils::mailboxFlagsToFolderAttributes(
diff --git a/src/vmime/net/imap/IMAPMessage.cpp b/src/vmime/net/imap/IMAPMessage.cpp
index fd2e757..9df01aa 100644
--- a/src/vmime/net/imap/IMAPMessage.cpp
+++ b/src/vmime/net/imap/IMAPMessage.cpp
@@ -478,6 +478,7 @@ size_t IMAPMessage::extractImpl(
 	if (resp->isBad() || resp->response_done->response_tagged->
 		resp_cond_state->status != IMAPParser::resp_cond_state::OK) {
 
+		folder->processStatusUpdate(resp.get());
 		throw exceptions::command_error("FETCH", resp->getErrorLog(), "bad response");
 	}
 
-- 
2.43.0


From 26c7ec3a1d6bbadab54b411eed12ffbdee22c714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:27 +0000
Subject: [PATCH 080/118] fix: length overflow when extracting a range of an
 IMAP message part

---
 src/vmime/net/imap/IMAPMessage.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vmime/net/imap/IMAPMessage.cpp b/src/vmime/net/imap/IMAPMessage.cpp
index 9df01aa..7f810c3 100644
--- a/src/vmime/net/imap/IMAPMessage.cpp
+++ b/src/vmime/net/imap/IMAPMessage.cpp
@@ -426,7 +426,7 @@ size_t IMAPMessage::extractImpl(
 
 					size_t headerCopyLength = l;
 
-					if (start + headerCopyLength > headerLength) {
+					if (headerCopyLength > headerLength - start) {
 						headerCopyLength = headerLength - start;
 					}
 
-- 
2.43.0


From 4ee86b89ed53ff8fa5926aa3a3d30a03d77618e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:27 +0000
Subject: [PATCH 081/118] fix: header of an IMAP message part generated and
 extracted again with its contents

---
 src/vmime/net/imap/IMAPMessagePartContentHandler.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/vmime/net/imap/IMAPMessagePartContentHandler.cpp b/src/vmime/net/imap/IMAPMessagePartContentHandler.cpp
index 040d2ab..07484b3 100644
--- a/src/vmime/net/imap/IMAPMessagePartContentHandler.cpp
+++ b/src/vmime/net/imap/IMAPMessagePartContentHandler.cpp
@@ -86,7 +86,7 @@ void IMAPMessagePartContentHandler::generate(
 			std::ostringstream oss;
 			utility::outputStreamAdapter tmp(oss);
 
-			msg->extractPart(part, tmp, NULL);
+			msg->extractImpl(part, tmp, NULL, 0, -1, IMAPMessage::EXTRACT_BODY);
 
 			// Decode to another temporary buffer
 			utility::inputStreamStringAdapter in(oss.str());
@@ -110,7 +110,7 @@ void IMAPMessagePartContentHandler::generate(
 		// No encoding to perform
 		} else {
 
-			msg->extractPart(part, os);
+			msg->extractImpl(part, os, NULL, 0, -1, IMAPMessage::EXTRACT_BODY);
 		}
 
 	// Need to encode data before
@@ -120,7 +120,7 @@ void IMAPMessagePartContentHandler::generate(
 		std::ostringstream oss;
 		utility::outputStreamAdapter tmp(oss);
 
-		msg->extractPart(part, tmp, NULL);
+		msg->extractImpl(part, tmp, NULL, 0, -1, IMAPMessage::EXTRACT_BODY);
 
 		// Encode temporary buffer to output stream
 		shared_ptr <utility::encoder::encoder> theEncoder = enc.getEncoder();
@@ -180,7 +180,7 @@ void IMAPMessagePartContentHandler::extractRaw(
 	if (!msg || !part)
 		throw exceptions::message_not_found();
 
-	msg->extractPart(part, os, progress);
+	msg->extractImpl(part, os, progress, 0, -1, IMAPMessage::EXTRACT_BODY);
 }
 
 
-- 
2.43.0


From 49e4e625c0a89158c2e3f65595b1d8949f848b01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:00 +0000
Subject: [PATCH 082/118] fix: flags of messages taken for attributes of the
 IMAP folder when opening it

---
 src/vmime/net/imap/IMAPFolder.cpp | 28 +++++-----------------------
 1 file changed, 5 insertions(+), 23 deletions(-)

diff --git a/src/vmime/net/imap/IMAPFolder.cpp b/src/vmime/net/imap/IMAPFolder.cpp
index ae5529b..ed7da60 100644
--- a/src/vmime/net/imap/IMAPFolder.cpp
+++ b/src/vmime/net/imap/IMAPFolder.cpp
@@ -256,30 +256,12 @@ void IMAPFolder::open(const int mode, bool failIfModeIsNotAvailable) {
 					}
 				}
 
-			// Untagged responses: FLAGS, EXISTS, RECENT (required)
-			} else if (responseData->mailbox_data) {
-
-				switch (responseData->mailbox_data->type) {
-
-					default: break;
-
-					case IMAPParser::mailbox_data::FLAGS: {
-
-						if (!m_attribs) {
-							m_attribs = make_shared <folderAttributes>();
-						}
-
-						IMAPUtils::mailboxFlagsToFolderAttributes(
-							connection,
-							m_path,
-							*responseData->mailbox_data->mailbox_flag_list,
-							*m_attribs
-						);
-
-						break;
-					}
-				}
 			}
+
+			// Untagged responses: FLAGS, EXISTS, RECENT (required)
+			//
+			// Note: FLAGS gives the flags of the messages in this folder,
+			// not the attributes of the folder
 		}
 
 		processStatusUpdate(resp.get());
-- 
2.43.0


From 2bc2c01d82260253ad13f4ce28f759ab2f78d852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:00 +0000
Subject: [PATCH 083/118] fix: mode of an IMAP folder is available unless the
 server says it is read-only

---
 src/vmime/net/imap/IMAPFolder.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/vmime/net/imap/IMAPFolder.cpp b/src/vmime/net/imap/IMAPFolder.cpp
index ed7da60..cba7d1d 100644
--- a/src/vmime/net/imap/IMAPFolder.cpp
+++ b/src/vmime/net/imap/IMAPFolder.cpp
@@ -274,9 +274,9 @@ void IMAPFolder::open(const int mode, bool failIfModeIsNotAvailable) {
 		if (respTextCode) {
 
 			const int openMode =
-				(respTextCode->type == IMAPParser::resp_text_code::READ_WRITE)
-					? MODE_READ_WRITE
-					: MODE_READ_ONLY;
+				(respTextCode->type == IMAPParser::resp_text_code::READ_ONLY)
+					? MODE_READ_ONLY
+					: MODE_READ_WRITE;
 
 			if (failIfModeIsNotAvailable &&
 			    mode == MODE_READ_WRITE && openMode == MODE_READ_ONLY) {
-- 
2.43.0


From 3e3b276365207870651905ef7537c9d8390857ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:45 +0000
Subject: [PATCH 084/118] fix: properties read from a text are those listed

---
 src/vmime/propertySet.cpp | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/src/vmime/propertySet.cpp b/src/vmime/propertySet.cpp
index e0d4848..1d22e4a 100644
--- a/src/vmime/propertySet.cpp
+++ b/src/vmime/propertySet.cpp
@@ -113,7 +113,7 @@ void propertySet::parse(const string& props) {
 			// Extract the property name
 			const string::const_iterator optStart = pos;
 
-			for ( ; pos != end && *pos != '=' ; ++pos) {}
+			for ( ; pos != end && *pos != '=' && *pos != ';' ; ++pos) {}
 
 			string::const_iterator optEnd = pos;
 
@@ -122,9 +122,10 @@ void propertySet::parse(const string& props) {
 			const string option(optStart, optEnd);
 			string value = "1";
 
-			if (pos != end) {
+			if (pos != end && *pos == '=') {
 
 				++pos; // skip '='
+				value.clear();
 
 				// Extract the value
 				for ( ; pos != end && parserHelpers::isSpace(*pos) ; ++pos) {}
@@ -159,16 +160,12 @@ void propertySet::parse(const string& props) {
 							}
 						}
 
-						if (pos != end) {
-							++pos;
-						}
-
 					// Simple value
 					} else {
 
 						const string::const_iterator valStart = pos;
 
-						for ( ; pos != end && !parserHelpers::isSpace(*pos) ; ++pos) {}
+						for ( ; pos != end && *pos != ';' && !parserHelpers::isSpace(*pos) ; ++pos) {}
 
 						value = string(valStart, pos);
 					}
@@ -182,7 +179,7 @@ void propertySet::parse(const string& props) {
 				}
 			}
 
-			m_props.push_back(make_shared <property>(option, value));
+			findOrCreate(option)->setValue(value);
 		}
 	}
 }
-- 
2.43.0


From cc714866c8ed782a757ea0add025a512ee9037ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:45 +0000
Subject: [PATCH 085/118] fix: modifiers of a disposition are found whatever
 the case they were received in

---
 src/vmime/disposition.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/vmime/disposition.cpp b/src/vmime/disposition.cpp
index c8fa617..5190f51 100644
--- a/src/vmime/disposition.cpp
+++ b/src/vmime/disposition.cpp
@@ -150,7 +150,7 @@ void disposition::removeModifier(const string& modifier) {
 	for (std::vector <string>::iterator it = m_modifiers.begin() ;
 	     it != m_modifiers.end() ; ++it) {
 
-		if (*it == modifierLC) {
+		if (utility::stringUtils::toLower(*it) == modifierLC) {
 			m_modifiers.erase(it);
 			break;
 		}
@@ -171,7 +171,7 @@ bool disposition::hasModifier(const string& modifier) const {
 	for (std::vector <string>::const_iterator it = m_modifiers.begin() ;
 	     it != m_modifiers.end() ; ++it) {
 
-		if (*it == modifierLC) {
+		if (utility::stringUtils::toLower(*it) == modifierLC) {
 			return true;
 		}
 	}
-- 
2.43.0


From 8141d914dbe1b90a08092b0a2a8f987024f7d414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:46 +0000
Subject: [PATCH 086/118] fix: media type and relay parsed do not keep what
 they held before

---
 src/vmime/mediaType.cpp | 2 ++
 src/vmime/relay.cpp     | 8 ++++++++
 2 files changed, 10 insertions(+)

diff --git a/src/vmime/mediaType.cpp b/src/vmime/mediaType.cpp
index 46163bc..9ccf89e 100644
--- a/src/vmime/mediaType.cpp
+++ b/src/vmime/mediaType.cpp
@@ -81,6 +81,8 @@ void mediaType::parseImpl(
 		)
 	);
 
+	m_subType.clear();
+
 	if (p < pend) {
 
 		// Skip '/' character
diff --git a/src/vmime/relay.cpp b/src/vmime/relay.cpp
index f989615..c8f4342 100644
--- a/src/vmime/relay.cpp
+++ b/src/vmime/relay.cpp
@@ -65,6 +65,14 @@ void relay::parseImpl(
 	size_t* newPosition
 ) {
 
+	m_from.clear();
+	m_via.clear();
+	m_by.clear();
+	m_id.clear();
+	m_for.clear();
+	m_with.clear();
+	m_date = datetime();
+
 	const char* const pend = buffer.data() + end;
 	const char* const pstart = buffer.data() + position;
 	const char* p = pend - 1;
-- 
2.43.0


From 478e5d5bb7861f5253f3eb9fe737635b22c31cc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:46 +0000
Subject: [PATCH 087/118] fix: message identifiers with comments

---
 src/vmime/messageId.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/vmime/messageId.cpp b/src/vmime/messageId.cpp
index 35712f3..11e46d5 100644
--- a/src/vmime/messageId.cpp
+++ b/src/vmime/messageId.cpp
@@ -87,13 +87,14 @@ void messageId::parseImpl(
 		if (escape) {
 
 			// Ignore this character
+			escape = false;
 
 		} else {
 
 			switch (*p) {
 
 				case '(': ++commentLevel; break;
-				case ')': --commentLevel; break;
+				case ')': if (commentLevel > 0) --commentLevel; break;
 				case '\\': escape = true; break;
 				case '<': {
 
@@ -110,7 +111,7 @@ void messageId::parseImpl(
 	// Fix for message ids without angle brackets (invalid)
 	bool hasBrackets = true;
 
-	if (p == pend) {  // no opening angle bracket found
+	if (!stop) {  // no opening angle bracket found
 
 		hasBrackets = false;
 		p = pstart;
@@ -132,7 +133,7 @@ void messageId::parseImpl(
 			buffer.begin() + position + (p - pstart)
 		);
 
-		if (p < pend) {
+		if (p < pend && *p == '@') {
 
 			// Skip '@'
 			++p;
-- 
2.43.0


From 7fa09ca9a7587119b2ef7c3896a9a29bf4ca3003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:08 +0000
Subject: [PATCH 088/118] fix: message identifiers of a list separated by
 comments or nothing

---
 src/vmime/messageId.cpp | 45 ++++++++++++++++++++++++++++++++++++-----
 1 file changed, 40 insertions(+), 5 deletions(-)

diff --git a/src/vmime/messageId.cpp b/src/vmime/messageId.cpp
index 11e46d5..0206c57 100644
--- a/src/vmime/messageId.cpp
+++ b/src/vmime/messageId.cpp
@@ -168,16 +168,51 @@ shared_ptr <messageId> messageId::parseNext(
 
 	size_t pos = position;
 
-	while (pos < end && parserHelpers::isSpace(buffer[pos])) {
-		++pos;
+	// Skip white-spaces and comments
+	while (pos < end && (parserHelpers::isSpace(buffer[pos]) || buffer[pos] == '(')) {
+
+		if (buffer[pos] == '(') {
+
+			size_t commentEnd = pos;
+			unsigned int commentLevel = 0;
+
+			do {
+
+				switch (buffer[commentEnd]) {
+
+					case '(': ++commentLevel; break;
+					case ')': --commentLevel; break;
+					case '\\': ++commentEnd; break;
+				}
+
+				++commentEnd;
+
+			} while (commentEnd < end && commentLevel != 0);
+
+			if (commentLevel != 0) {
+				break;  // not a comment
+			}
+
+			pos = commentEnd;
+
+		} else {
+
+			++pos;
+		}
 	}
 
-	if (pos != end) {
+	if (pos < end) {
 
 		const size_t begin = pos;
 
-		while (pos < end && !parserHelpers::isSpace(buffer[pos])) {
-			++pos;
+		// An identifier ends with its closing angle bracket; identifiers
+		// without angle brackets (invalid) end at the next white-space
+		while (pos < end && !parserHelpers::isSpace(buffer[pos]) &&
+		       (buffer[pos] != '<' || pos == begin)) {
+
+			if (buffer[pos++] == '>' && buffer[begin] == '<') {
+				break;
+			}
 		}
 
 		shared_ptr <messageId> mid = make_shared <messageId>();
-- 
2.43.0


From 058419a03b146a8df07464d39388ce3e57ee596f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:08 +0000
Subject: [PATCH 089/118] fix: words of a relay that only begin like a keyword

---
 src/vmime/relay.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/vmime/relay.cpp b/src/vmime/relay.cpp
index c8f4342..39539ba 100644
--- a/src/vmime/relay.cpp
+++ b/src/vmime/relay.cpp
@@ -135,32 +135,32 @@ void relay::parseImpl(
 
 				if (!inComment) {
 
-					if (utility::stringUtils::isStringEqualNoCase(word, "from", 4)) {
+					if (utility::stringUtils::isStringEqualNoCase(word, "from")) {
 
 						newPart = Part_From;
 						keyword = true;
 
-					} else if (utility::stringUtils::isStringEqualNoCase(word, "by", 2)) {
+					} else if (utility::stringUtils::isStringEqualNoCase(word, "by")) {
 
 						newPart = Part_By;
 						keyword = true;
 
-					} else if (utility::stringUtils::isStringEqualNoCase(word, "via", 2)) {
+					} else if (utility::stringUtils::isStringEqualNoCase(word, "via")) {
 
 						newPart = Part_Via;
 						keyword = true;
 
-					} else if (utility::stringUtils::isStringEqualNoCase(word, "with", 2)) {
+					} else if (utility::stringUtils::isStringEqualNoCase(word, "with")) {
 
 						newPart = Part_With;
 						keyword = true;
 
-					} else if (utility::stringUtils::isStringEqualNoCase(word, "id", 2)) {
+					} else if (utility::stringUtils::isStringEqualNoCase(word, "id")) {
 
 						newPart = Part_Id;
 						keyword = true;
 
-					} else if (utility::stringUtils::isStringEqualNoCase(word, "for", 2)) {
+					} else if (utility::stringUtils::isStringEqualNoCase(word, "for")) {
 
 						newPart = Part_For;
 						keyword = true;
-- 
2.43.0


From 82b9dfc363f9a742126a8e1c8f03c2b085a37e03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:08 +0000
Subject: [PATCH 090/118] fix: usage of an encoding copied

---
 src/vmime/encoding.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/vmime/encoding.cpp b/src/vmime/encoding.cpp
index bca3157..e12f4f6 100644
--- a/src/vmime/encoding.cpp
+++ b/src/vmime/encoding.cpp
@@ -293,6 +293,7 @@ void encoding::copyFrom(const component& other) {
 	const encoding& e = dynamic_cast <const encoding&>(other);
 
 	m_name = e.m_name;
+	m_usage = e.m_usage;
 }
 
 
-- 
2.43.0


From 4e8d71bb4f382be52950afcb0cf105868467902e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:08 +0000
Subject: [PATCH 091/118] fix: path with a quoted local part or without angle
 brackets

---
 src/vmime/path.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/vmime/path.cpp b/src/vmime/path.cpp
index a672b22..0cabeca 100644
--- a/src/vmime/path.cpp
+++ b/src/vmime/path.cpp
@@ -155,10 +155,16 @@ void path::parseImpl(
 
 	} else {
 
-		addrSpec = string(buffer.begin() + position, buffer.begin() + end);
+		size_t addrEnd = end;
+
+		while (addrEnd > pos && parserHelpers::isSpace(buffer[addrEnd - 1])) {
+			addrEnd--;
+		}
+
+		addrSpec = string(buffer.begin() + pos, buffer.begin() + addrEnd);
 	}
 
-	const size_t at = addrSpec.find_first_of('@');
+	const size_t at = addrSpec.find_last_of('@');
 
 	if (at != string::npos) {
 
@@ -171,6 +177,8 @@ void path::parseImpl(
 		m_domain = addrSpec;
 	}
 
+	setParsedBounds(position, end);
+
 	if (newPosition) {
 		*newPosition = end;
 	}
-- 
2.43.0


From 09d8df0ac945cf23ded279249c336db48baf6a0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:08 +0000
Subject: [PATCH 092/118] fix: bounds of a disposition parsed

---
 src/vmime/disposition.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/vmime/disposition.cpp b/src/vmime/disposition.cpp
index 5190f51..92d2dc2 100644
--- a/src/vmime/disposition.cpp
+++ b/src/vmime/disposition.cpp
@@ -298,6 +298,8 @@ void disposition::parseImpl(
 		}
 	}
 
+	setParsedBounds(position, pos);
+
 	if (newPosition) {
 		*newPosition = pos;
 	}
-- 
2.43.0


From 5e4fdda03a2e97e2cfd66fc8a61e75223fd1b66f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:27 +0000
Subject: [PATCH 093/118] fix: quoted values of properties

---
 src/vmime/propertySet.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vmime/propertySet.cpp b/src/vmime/propertySet.cpp
index 1d22e4a..de672ea 100644
--- a/src/vmime/propertySet.cpp
+++ b/src/vmime/propertySet.cpp
@@ -137,7 +137,7 @@ void propertySet::parse(const string& props) {
 
 						value.reserve(50);
 
-						const char quoteChar = *pos;
+						const char quoteChar = *pos++;
 						bool theEnd = false;
 						bool escape = false;
 
-- 
2.43.0


From df34c7c64d1406000be47642c5775a5302bd0f98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:27 +0000
Subject: [PATCH 094/118] fix: blanks around the slash in the mode of a
 disposition

---
 src/vmime/disposition.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/vmime/disposition.cpp b/src/vmime/disposition.cpp
index 92d2dc2..4e6d3ad 100644
--- a/src/vmime/disposition.cpp
+++ b/src/vmime/disposition.cpp
@@ -223,8 +223,8 @@ void disposition::parseImpl(
 
 	if (slash != string::npos) {
 
-		m_actionMode = string(mode.begin(), mode.begin() + slash);
-		m_sendingMode = string(mode.begin() + slash + 1, mode.end());
+		m_actionMode = utility::stringUtils::trim(string(mode.begin(), mode.begin() + slash));
+		m_sendingMode = utility::stringUtils::trim(string(mode.begin() + slash + 1, mode.end()));
 
 	} else {
 
-- 
2.43.0


From 49e43224bf8cff524ab7dcca5a384c7a7b6c1b21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:36 +0000
Subject: [PATCH 095/118] fix: language of a word cloned

---
 src/vmime/word.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vmime/word.cpp b/src/vmime/word.cpp
index ba82eb5..780e937 100644
--- a/src/vmime/word.cpp
+++ b/src/vmime/word.cpp
@@ -890,7 +890,7 @@ const string word::getConvertedText(
 
 shared_ptr <component> word::clone() const {
 
-	return make_shared <word>(m_buffer, m_charset);
+	return make_shared <word>(m_buffer, m_charset, m_lang);
 }
 
 
-- 
2.43.0


From 715a430a8720cca2ba94a8460f153320ff9e4a7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:54 +0000
Subject: [PATCH 096/118] fix: keywords of a relay after a comment

---
 src/vmime/relay.cpp | 51 +++++++++++++++++++++++++++++++++++----------
 1 file changed, 40 insertions(+), 11 deletions(-)

diff --git a/src/vmime/relay.cpp b/src/vmime/relay.cpp
index 39539ba..0404d2c 100644
--- a/src/vmime/relay.cpp
+++ b/src/vmime/relay.cpp
@@ -26,6 +26,7 @@
 #include "vmime/parserHelpers.hpp"
 #include "vmime/utility/outputStreamAdapter.hpp"
 
+#include <algorithm>
 #include <sstream>
 
 
@@ -44,6 +45,30 @@ relay::relay(const relay& r)
 }
 
 
+// Advances past a comment (or past the part of it this word contains),
+// starting at the specified position
+static size_t skipComment(const string& word, const size_t start, size_t& commentLevel) {
+
+	size_t pos = start;
+
+	do {
+
+		if (pos < word.length() && word[pos] == '\\') {
+			++pos;  // quoted pair
+		} else if (pos < word.length() && word[pos] == '(') {
+			++commentLevel;
+		} else if (pos < word.length() && word[pos] == ')') {
+			--commentLevel;
+		}
+
+		++pos;
+
+	} while (pos < word.length() && commentLevel > 0);
+
+	return std::min(pos, word.length());
+}
+
+
 /*
 
  RFC #2822:
@@ -110,7 +135,7 @@ void relay::parseImpl(
 
 		Parts part = Part_None;
 		bool cont = true;
-		bool inComment = false;
+		size_t commentLevel = 0;
 
 		while (cont) {
 
@@ -119,21 +144,23 @@ void relay::parseImpl(
 			if ((cont = !(iss >> word).fail())) {
 
 				// A little hack for handling comments
-				if (inComment) {
+				size_t commentEnd = 0;
+
+				if (commentLevel > 0) {
 
-					size_t par = word.find(')');
+					commentEnd = skipComment(word, 0, commentLevel);
 
-					if (par != string::npos) {
+					if (commentLevel == 0) {
 
-						previous.push_back(string(word.begin(), word.begin() + par + 1));
-						word.erase(word.begin(), word.begin() + par + 1);
-						inComment = false;
+						previous.push_back(string(word.begin(), word.begin() + commentEnd));
+						word.erase(word.begin(), word.begin() + commentEnd);
+						commentEnd = 0;
 					}
 				}
 
 				bool keyword = false;
 
-				if (!inComment) {
+				if (commentLevel == 0) {
 
 					if (utility::stringUtils::isStringEqualNoCase(word, "from")) {
 
@@ -167,10 +194,12 @@ void relay::parseImpl(
 					}
 				}
 
-				if (!keyword) {
+				if (!keyword && !word.empty()) {
+
+					size_t par = commentEnd;
 
-					if (word.find('(') != string::npos) {
-						inComment = true;
+					while ((par = word.find('(', par)) != string::npos) {
+						par = skipComment(word, par, commentLevel);
 					}
 
 					previous.push_back(word);
-- 
2.43.0


From 145d7f143d68be1f99bcad18689b2cd44d29932f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:59 +0000
Subject: [PATCH 097/118] fix: importance is normal when the priority is empty

---
 src/vmime/misc/importanceHelper.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vmime/misc/importanceHelper.cpp b/src/vmime/misc/importanceHelper.cpp
index 20c8e13..1f864c8 100644
--- a/src/vmime/misc/importanceHelper.cpp
+++ b/src/vmime/misc/importanceHelper.cpp
@@ -64,7 +64,7 @@ importanceHelper::Importance importanceHelper::getImportanceHeader(const shared_
 
 		const string value = fld->getValue <text>()->getWholeBuffer();
 
-		int n = IMPORTANCE_NORMAL;
+		int n = 0;
 
 		std::istringstream iss(value);
 		iss.imbue(std::locale::classic());
-- 
2.43.0


From fb71d05c62d5e00e2001ede28843c4bc76d693bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:59 +0000
Subject: [PATCH 098/118] fix: text of a disposition notification sent with an
 encoding that suits it

---
 src/vmime/mdn/MDNHelper.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/vmime/mdn/MDNHelper.cpp b/src/vmime/mdn/MDNHelper.cpp
index a21a181..e3c204a 100644
--- a/src/vmime/mdn/MDNHelper.cpp
+++ b/src/vmime/mdn/MDNHelper.cpp
@@ -211,7 +211,14 @@ shared_ptr <bodyPart> MDNHelper::createFirstMDNPart(
 	dynamicCast <contentTypeField>(hdr->ContentType())->setCharset(ch);
 
 	// Body
-	part->getBody()->setContents(make_shared <stringContentHandler>(text));
+	shared_ptr <stringContentHandler> contents = make_shared <stringContentHandler>(text);
+
+	part->getBody()->setContents(
+		contents,
+		mediaType(vmime::mediaTypes::TEXT, vmime::mediaTypes::TEXT_PLAIN),
+		ch,
+		encoding::decide(contents, ch, encoding::USAGE_TEXT)
+	);
 
 	return part;
 }
-- 
2.43.0


From 8ba34da6bda6c9beced7129631f3e25635d718c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:59 +0000
Subject: [PATCH 099/118] fix: single-part text message of another type than
 plain or HTML can be read

---
 src/vmime/messageParser.cpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/vmime/messageParser.cpp b/src/vmime/messageParser.cpp
index d7dd592..37874cb 100644
--- a/src/vmime/messageParser.cpp
+++ b/src/vmime/messageParser.cpp
@@ -151,10 +151,17 @@ void messageParser::findTextParts(
 
 		if (accept) {
 
-			shared_ptr <textPart> txtPart = textPartFactory::getInstance()->create(type);
-			txtPart->parse(msg, msg, msg);
+			try {
+
+				shared_ptr <textPart> txtPart = textPartFactory::getInstance()->create(type);
+				txtPart->parse(msg, msg, msg);
+
+				m_textParts.push_back(txtPart);
 
-			m_textParts.push_back(txtPart);
+			} catch (exceptions::no_factory_available& e) {
+
+				// Content-type not recognized.
+			}
 		}
 
 	// Multipart message
-- 
2.43.0


From 194aa3aed574882e3eb4a5024272075a6466c80b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:59 +0000
Subject: [PATCH 100/118] fix: parts removed from a body no longer have a
 parent

---
 src/vmime/body.cpp     | 56 ++++++++++++++++++++++++++++--------------
 src/vmime/bodyPart.cpp | 17 +++++++++++++
 src/vmime/bodyPart.hpp |  1 +
 3 files changed, 55 insertions(+), 19 deletions(-)

diff --git a/src/vmime/body.cpp b/src/vmime/body.cpp
index dfd1075..38ef355 100644
--- a/src/vmime/body.cpp
+++ b/src/vmime/body.cpp
@@ -51,6 +51,8 @@ body::body()
 
 body::~body() {
 
+	// Parts may outlive this body
+	removeAllParts();
 }
 
 
@@ -813,8 +815,7 @@ void body::setParentPart(bodyPart* parent) {
 	for (std::vector <shared_ptr <bodyPart> >::iterator it = m_parts.begin() ;
 	     it != m_parts.end() ; ++it) {
 
-		shared_ptr <bodyPart> childPart = *it;
-		parent->importChildPart(childPart);
+		(*it)->m_parent = parent;
 	}
 }
 
@@ -844,13 +845,16 @@ void body::copyFrom(const component& other) {
 
 	m_contents = bdy.m_contents;
 
+	const std::vector <shared_ptr <bodyPart> > parts = bdy.m_parts;
+
 	removeAllParts();
 
-	for (size_t p = 0 ; p < bdy.getPartCount() ; ++p) {
+	for (size_t p = 0 ; p < parts.size() ; ++p) {
 
-		shared_ptr <bodyPart> part = m_part->createChildPart();
+		shared_ptr <bodyPart> part = make_shared <bodyPart>();
 
-		part->copyFrom(*bdy.getPartAt(p));
+		part->copyFrom(*parts[p]);
+		part->m_parent = m_part;
 
 		m_parts.push_back(part);
 	}
@@ -1013,16 +1017,20 @@ void body::insertPartBefore(
 	const shared_ptr <bodyPart>& part
 ) {
 
+	if (std::find(m_parts.begin(), m_parts.end(), beforePart) == m_parts.end()) {
+		throw exceptions::no_such_part();
+	}
+
+	if (part == beforePart) {
+		return;  // already there
+	}
+
 	initNewPart(part);
 
 	const std::vector <shared_ptr <bodyPart> >::iterator it = std::find(
 		m_parts.begin(), m_parts.end(), beforePart
 	);
 
-	if (it == m_parts.end()) {
-		throw exceptions::no_such_part();
-	}
-
 	m_parts.insert(it, part);
 }
 
@@ -1032,9 +1040,11 @@ void body::insertPartBefore(
 	const shared_ptr <bodyPart>& part
 ) {
 
-	initNewPart(part);
-
-	m_parts.insert(m_parts.begin() + pos, part);
+	if (pos < m_parts.size()) {
+		insertPartBefore(shared_ptr <bodyPart>(m_parts[pos]), part);
+	} else {
+		appendPart(part);
+	}
 }
 
 
@@ -1043,25 +1053,27 @@ void body::insertPartAfter(
 	const shared_ptr <bodyPart>& part
 ) {
 
+	if (std::find(m_parts.begin(), m_parts.end(), afterPart) == m_parts.end()) {
+		throw exceptions::no_such_part();
+	}
+
+	if (part == afterPart) {
+		return;  // already there
+	}
+
 	initNewPart(part);
 
 	const std::vector <shared_ptr <bodyPart> >::iterator it = std::find(
 		m_parts.begin(), m_parts.end(), afterPart
 	);
 
-	if (it == m_parts.end()) {
-		throw exceptions::no_such_part();
-	}
-
 	m_parts.insert(it + 1, part);
 }
 
 
 void body::insertPartAfter(const size_t pos, const shared_ptr <bodyPart>& part) {
 
-	initNewPart(part);
-
-	m_parts.insert(m_parts.begin() + pos + 1, part);
+	insertPartAfter(shared_ptr <bodyPart>(m_parts[pos]), part);
 }
 
 
@@ -1075,18 +1087,24 @@ void body::removePart(const shared_ptr <bodyPart>& part) {
 		throw exceptions::no_such_part();
 	}
 
+	(*it)->m_parent = NULL;
 	m_parts.erase(it);
 }
 
 
 void body::removePart(const size_t pos) {
 
+	m_parts[pos]->m_parent = NULL;
 	m_parts.erase(m_parts.begin() + pos);
 }
 
 
 void body::removeAllParts() {
 
+	for (size_t i = 0 ; i < m_parts.size() ; ++i) {
+		m_parts[i]->m_parent = NULL;
+	}
+
 	m_parts.clear();
 }
 
diff --git a/src/vmime/bodyPart.cpp b/src/vmime/bodyPart.cpp
index 5c59fe5..c934393 100644
--- a/src/vmime/bodyPart.cpp
+++ b/src/vmime/bodyPart.cpp
@@ -36,6 +36,15 @@ bodyPart::bodyPart()
 }
 
 
+bodyPart::~bodyPart() {
+
+	// The body may outlive this part
+	if (m_body->m_part == this) {
+		m_body->setParentPart(NULL);
+	}
+}
+
+
 void bodyPart::parseImpl(
 	parsingContext& ctx,
 	const shared_ptr <utility::parserInputStreamAdapter>& parser,
@@ -145,8 +154,16 @@ shared_ptr <body> bodyPart::getBody() {
 
 void bodyPart::setBody(const shared_ptr <body>& b) {
 
+	if (b == m_body) {
+		return;
+	}
+
 	bodyPart* oldPart = b->m_part;
 
+	if (m_body->m_part == this) {
+		m_body->setParentPart(NULL);
+	}
+
 	m_body = b;
 	m_body->setParentPart(this);
 
diff --git a/src/vmime/bodyPart.hpp b/src/vmime/bodyPart.hpp
index e7e5ade..4173182 100644
--- a/src/vmime/bodyPart.hpp
+++ b/src/vmime/bodyPart.hpp
@@ -44,6 +44,7 @@ class VMIME_EXPORT bodyPart : public component {
 public:
 
 	bodyPart();
+	~bodyPart();
 
 	/** Return the header section of this part.
 	  *
-- 
2.43.0


From a9f8adb42c74b24986a382d0f8a85865f4214b42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:59 +0000
Subject: [PATCH 101/118] fix: adding an attachment keeps what describes the
 contents of the message

---
 src/vmime/attachmentHelper.cpp | 56 +++++++++++++++++++---------------
 1 file changed, 31 insertions(+), 25 deletions(-)

diff --git a/src/vmime/attachmentHelper.cpp b/src/vmime/attachmentHelper.cpp
index 8605122..f998464 100644
--- a/src/vmime/attachmentHelper.cpp
+++ b/src/vmime/attachmentHelper.cpp
@@ -213,6 +213,31 @@ const std::vector <shared_ptr <const attachment> >
 }
 
 
+/** Move the fields which describe the contents of a part (with
+  * their parameters) from a header to another one.
+  */
+static void moveContentFields(const shared_ptr <header>& from, const shared_ptr <header>& to) {
+
+	const char* const names[] = {
+		fields::CONTENT_TYPE,
+		fields::CONTENT_TRANSFER_ENCODING,
+		fields::CONTENT_DISPOSITION,
+		fields::CONTENT_DESCRIPTION
+	};
+
+	for (const char* const name : names) {
+
+		if (from->hasField(name)) {
+
+			shared_ptr <headerField> field = from->getField(name);
+
+			from->removeAllFields(name);
+			to->appendField(field);
+		}
+	}
+}
+
+
 // static
 void attachmentHelper::addAttachment(const shared_ptr <message>& msg, const shared_ptr <attachment>& att) {
 
@@ -235,19 +260,7 @@ void attachmentHelper::addAttachment(const shared_ptr <message>& msg, const shar
 			// the root part of the message
 			shared_ptr <bodyPart> container = make_shared <bodyPart>();
 
-			if (msg->getHeader()->hasField(fields::CONTENT_TYPE)) {
-
-				container->getHeader()->ContentType()->setValue(
-					msg->getHeader()->ContentType()->getValue()
-				);
-			}
-
-			if (msg->getHeader()->hasField(fields::CONTENT_TRANSFER_ENCODING)) {
-
-				container->getHeader()->ContentTransferEncoding()->setValue(
-					msg->getHeader()->ContentTransferEncoding()->getValue()
-				);
-			}
+			moveContentFields(msg->getHeader(), container->getHeader());
 
 			// Move parts from the root part to this new part
 			const std::vector <shared_ptr <bodyPart> > partList =
@@ -268,17 +281,13 @@ void attachmentHelper::addAttachment(const shared_ptr <message>& msg, const shar
 			// root to a new child part.
 			shared_ptr <bodyPart> child = make_shared <bodyPart>();
 
-			if (msg->getHeader()->hasField(fields::CONTENT_TYPE)) {
+			moveContentFields(msg->getHeader(), child->getHeader());
 
-				child->getHeader()->ContentType()->setValue(
-					msg->getHeader()->ContentType()->getValue()
-				);
-			}
-
-			if (msg->getHeader()->hasField(fields::CONTENT_TRANSFER_ENCODING)) {
+			if (!child->getHeader()->hasField(fields::CONTENT_TYPE)) {
 
-				child->getHeader()->ContentTransferEncoding()->setValue(
-					msg->getHeader()->ContentTransferEncoding()->getValue()
+				// A message with no "Content-Type" field is plain text
+				child->getHeader()->ContentType()->setValue(
+					mediaType(mediaTypes::TEXT, mediaTypes::TEXT_PLAIN)
 				);
 			}
 
@@ -291,9 +300,6 @@ void attachmentHelper::addAttachment(const shared_ptr <message>& msg, const shar
 		// Set the root part to 'multipart/mixed'
 		msg->getHeader()->ContentType()->setValue(mpMixed);
 
-		msg->getHeader()->removeAllFields(vmime::fields::CONTENT_DISPOSITION);
-		msg->getHeader()->removeAllFields(vmime::fields::CONTENT_TRANSFER_ENCODING);
-
 		part = msg;
 	}
 
-- 
2.43.0


From 05151cfc28167f9033e5a3bda247e2c0552fac34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:25:19 +0000
Subject: [PATCH 102/118] fix: strict filtered charset conversion reports
 illegal bytes of the source

---
 src/vmime/charsetConverter_icu.cpp | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/vmime/charsetConverter_icu.cpp b/src/vmime/charsetConverter_icu.cpp
index 5016dca..b49344e 100644
--- a/src/vmime/charsetConverter_icu.cpp
+++ b/src/vmime/charsetConverter_icu.cpp
@@ -353,7 +353,7 @@ charsetFilteredOutputStream_icu::charsetFilteredOutputStream_icu(
 
 		// Tell ICU top stop (and return an error) on illegal byte sequences
 		ucnv_setToUCallBack(
-			m_to, UCNV_TO_U_CALLBACK_STOP, UCNV_SUB_STOP_ON_ILLEGAL, NULL, NULL, &err
+			m_from, UCNV_TO_U_CALLBACK_STOP, UCNV_SUB_STOP_ON_ILLEGAL, NULL, NULL, &err
 		);
 
 		if (U_FAILURE(err)) {
@@ -517,9 +517,18 @@ void charsetFilteredOutputStream_icu::flush() {
 
 		if (U_FAILURE(toErr) && toErr != U_BUFFER_OVERFLOW_ERROR) {
 
-			throw exceptions::charset_conv_error(
-				"[ICU] Error converting to Unicode from '" + m_sourceCharset.getName() + "'."
-			);
+			if (toErr == U_INVALID_CHAR_FOUND ||
+			    toErr == U_TRUNCATED_CHAR_FOUND ||
+			    toErr == U_ILLEGAL_CHAR_FOUND) {
+
+				throw exceptions::illegal_byte_sequence_for_charset();
+
+			} else {
+
+				throw exceptions::charset_conv_error(
+					"[ICU] Error converting to Unicode from '" + m_sourceCharset.getName() + "'."
+				);
+			}
 		}
 
 		const size_t uniLength = uniTarget - &uniBuffer[0];
-- 
2.43.0


From f2a94c47542c7120816bb996ef5c9d5d2b92971b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:25:19 +0000
Subject: [PATCH 103/118] fix: flushing a charset conversion returns to the
 initial state of the charset

---
 src/vmime/charsetConverter_icu.cpp | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/vmime/charsetConverter_icu.cpp b/src/vmime/charsetConverter_icu.cpp
index b49344e..c02f5e1 100644
--- a/src/vmime/charsetConverter_icu.cpp
+++ b/src/vmime/charsetConverter_icu.cpp
@@ -532,12 +532,10 @@ void charsetFilteredOutputStream_icu::flush() {
 		}
 
 		const size_t uniLength = uniTarget - &uniBuffer[0];
-		if(uniLength == 0) {
-			continue;
-		}
 
-		// Allocate buffer for destination charset
-		const size_t cpSize = ucnv_getMinCharSize(m_to) * uniLength;
+		// Allocate buffer for destination charset (even if there are no more
+		// chars, the converter may have to write a closing escape sequence)
+		const size_t cpSize = ucnv_getMaxCharSize(m_to) * (uniLength + 1);
 		std::vector <char> cpBuffer(cpSize);
 
 		// Convert from Unicode to destination charset
-- 
2.43.0


From 7b34abb9cfa4615b8bb7268da8cca1a57440eb80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:25:19 +0000
Subject: [PATCH 104/118] fix: text before an illegal byte sequence is written
 before reporting the error

---
 src/vmime/charsetConverter_icu.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/vmime/charsetConverter_icu.cpp b/src/vmime/charsetConverter_icu.cpp
index c02f5e1..e7865e1 100644
--- a/src/vmime/charsetConverter_icu.cpp
+++ b/src/vmime/charsetConverter_icu.cpp
@@ -237,6 +237,9 @@ void charsetConverter_icu::convert(
 					st->outputBytesWritten += cpTarget - &cpOutBuffer[0];
 				}
 
+				// Write to destination stream
+				out.write(&cpOutBuffer[0], (cpTarget - &cpOutBuffer[0]));
+
 				// (*) If an error occurred while converting from input charset, throw it now
 				if (toErr == U_INVALID_CHAR_FOUND ||
 				    toErr == U_TRUNCATED_CHAR_FOUND ||
@@ -261,9 +264,6 @@ void charsetConverter_icu::convert(
 					}
 				}
 
-				// Write to destination stream
-				out.write(&cpOutBuffer[0], (cpTarget - &cpOutBuffer[0]));
-
 			} while (fromErr == U_BUFFER_OVERFLOW_ERROR);
 
 		} while (toErr == U_BUFFER_OVERFLOW_ERROR);
-- 
2.43.0


From 4378e701305c0c49b15ecdba3b1c820e63c4396d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:25:19 +0000
Subject: [PATCH 105/118] fix: writing nothing to a charset conversion stream

---
 src/vmime/charsetConverter_icu.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/vmime/charsetConverter_icu.cpp b/src/vmime/charsetConverter_icu.cpp
index e7865e1..b6f6fc9 100644
--- a/src/vmime/charsetConverter_icu.cpp
+++ b/src/vmime/charsetConverter_icu.cpp
@@ -393,6 +393,10 @@ void charsetFilteredOutputStream_icu::writeImpl(
 		throw exceptions::charset_conv_error("Cannot initialize converters.");
 	}
 
+	if (count == 0) {
+		return;
+	}
+
 	// Allocate buffer for Unicode chars
 	const size_t uniSize = ucnv_getMinCharSize(m_from) * count * sizeof(UChar);
 	std::vector <UChar> uniBuffer(uniSize);
-- 
2.43.0


From 5c2ffa3fe225794e2a887e55b85a602a13e53fd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:27:24 +0000
Subject: [PATCH 106/118] fix: replaced bytes are counted as read when
 converting charsets

---
 src/vmime/charsetConverter_icu.cpp | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/vmime/charsetConverter_icu.cpp b/src/vmime/charsetConverter_icu.cpp
index b6f6fc9..6936677 100644
--- a/src/vmime/charsetConverter_icu.cpp
+++ b/src/vmime/charsetConverter_icu.cpp
@@ -227,13 +227,19 @@ void charsetConverter_icu::convert(
 				if (st) {
 
 					// Decrement input bytes count by the number of input bytes in error
-					char errBytes[16];
-					int8_t errBytesLen = sizeof(errBytes);
-					UErrorCode errBytesErr = U_ZERO_ERROR;
+					if (toErr == U_INVALID_CHAR_FOUND ||
+					    toErr == U_TRUNCATED_CHAR_FOUND ||
+					    toErr == U_ILLEGAL_CHAR_FOUND) {
 
-	 				ucnv_getInvalidChars(m_from, errBytes, &errBytesLen, &errBytesErr);
+						char errBytes[16];
+						int8_t errBytesLen = sizeof(errBytes);
+						UErrorCode errBytesErr = U_ZERO_ERROR;
+
+						ucnv_getInvalidChars(m_from, errBytes, &errBytesLen, &errBytesErr);
+
+						st->inputBytesRead -= errBytesLen;
+					}
 
-					st->inputBytesRead -= errBytesLen;
 					st->outputBytesWritten += cpTarget - &cpOutBuffer[0];
 				}
 
-- 
2.43.0


From 67f6ddd8d4323e8f8521b023925c0d58864ae5c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:31:28 +0000
Subject: [PATCH 107/118] fix: text that is not a valid IDNA string is left as
 is

---
 src/vmime/charsetConverter_idna.cpp | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/src/vmime/charsetConverter_idna.cpp b/src/vmime/charsetConverter_idna.cpp
index aaa9875..d222546 100644
--- a/src/vmime/charsetConverter_idna.cpp
+++ b/src/vmime/charsetConverter_idna.cpp
@@ -143,7 +143,12 @@ void charsetConverter_idna::convert(const string& in, string& out, status* st) {
 
 		} else {
 
-			// TODO
+			// Cannot be encoded, leave it as is
+			out = in;
+
+			if (st) {
+				st->outputBytesWritten = out.length();
+			}
 		}
 
 	} else if (m_source == "idna") {
@@ -173,7 +178,14 @@ void charsetConverter_idna::convert(const string& in, string& out, status* st) {
 			st->inputBytesRead = in.length();
 		}
 
-		if (status == punycode_success) {
+		// Characters that do not exist cannot be written
+		bool valid = (status == punycode_success);
+
+		for (punycode_uint i = 0 ; valid && i < outputLen ; ++i) {
+			valid = (output[i] <= 0x10ffff && (output[i] < 0xd800 || output[i] > 0xdfff));
+		}
+
+		if (valid) {
 
 			std::vector <char> outUTF8Bytes(outputLen * 4);
 			char* p = &outUTF8Bytes[0];
@@ -193,7 +205,12 @@ void charsetConverter_idna::convert(const string& in, string& out, status* st) {
 
 		} else {
 
-			// TODO
+			// Not a valid IDNA string, leave it as is
+			out = in;
+
+			if (st) {
+				st->outputBytesWritten = out.length();
+			}
 		}
 	}
 }
-- 
2.43.0


From 876a51d640dd96361496220d876e02c9b618aa9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:24:25 +0000
Subject: [PATCH 108/118] fix: lists assigned to themselves lost their elements

---
 src/vmime/addressList.cpp              | 4 ++++
 src/vmime/mailboxGroup.cpp             | 4 ++++
 src/vmime/messageIdSequence.cpp        | 4 ++++
 src/vmime/parameterizedHeaderField.cpp | 4 ++++
 src/vmime/text.cpp                     | 4 ++++
 5 files changed, 20 insertions(+)

diff --git a/src/vmime/addressList.cpp b/src/vmime/addressList.cpp
index 75f6224..6d7363f 100644
--- a/src/vmime/addressList.cpp
+++ b/src/vmime/addressList.cpp
@@ -113,6 +113,10 @@ void addressList::generateImpl(
 
 void addressList::copyFrom(const component& other) {
 
+	if (&other == this) {
+		return;  // copied from itself
+	}
+
 	const addressList& addrList = dynamic_cast <const addressList&>(other);
 
 	removeAllAddresses();
diff --git a/src/vmime/mailboxGroup.cpp b/src/vmime/mailboxGroup.cpp
index f46e4c3..64c3a8a 100644
--- a/src/vmime/mailboxGroup.cpp
+++ b/src/vmime/mailboxGroup.cpp
@@ -224,6 +224,10 @@ void mailboxGroup::generateImpl(
 
 void mailboxGroup::copyFrom(const component& other) {
 
+	if (&other == this) {
+		return;  // copied from itself
+	}
+
 	const mailboxGroup& source = dynamic_cast <const mailboxGroup&>(other);
 
 	m_name = source.m_name;
diff --git a/src/vmime/messageIdSequence.cpp b/src/vmime/messageIdSequence.cpp
index e1d324a..d30b22e 100644
--- a/src/vmime/messageIdSequence.cpp
+++ b/src/vmime/messageIdSequence.cpp
@@ -56,6 +56,10 @@ shared_ptr <component> messageIdSequence::clone() const {
 
 void messageIdSequence::copyFrom(const component& other) {
 
+	if (&other == this) {
+		return;  // copied from itself
+	}
+
 	const messageIdSequence& midSeq = dynamic_cast <const messageIdSequence&>(other);
 
 	removeAllMessageIds();
diff --git a/src/vmime/parameterizedHeaderField.cpp b/src/vmime/parameterizedHeaderField.cpp
index 8980c88..ad5f522 100644
--- a/src/vmime/parameterizedHeaderField.cpp
+++ b/src/vmime/parameterizedHeaderField.cpp
@@ -416,6 +416,10 @@ size_t parameterizedHeaderField::getGeneratedSize(const generationContext& ctx)
 
 void parameterizedHeaderField::copyFrom(const component& other) {
 
+	if (&other == this) {
+		return;  // copied from itself
+	}
+
 	headerField::copyFrom(other);
 
 	const parameterizedHeaderField& source = dynamic_cast<const parameterizedHeaderField&>(other);
diff --git a/src/vmime/text.cpp b/src/vmime/text.cpp
index 2c14110..942583e 100644
--- a/src/vmime/text.cpp
+++ b/src/vmime/text.cpp
@@ -104,6 +104,10 @@ void text::generateImpl(
 
 void text::copyFrom(const component& other) {
 
+	if (&other == this) {
+		return;  // copied from itself
+	}
+
 	const text& t = dynamic_cast <const text&>(other);
 
 	removeAllWords();
-- 
2.43.0


From 9bfeb1cf0543e6d3afc43e9194447e542b492b72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:24:25 +0000
Subject: [PATCH 109/118] fix: comparison of content dispositions ignores case
 on both sides

---
 src/vmime/contentDisposition.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vmime/contentDisposition.cpp b/src/vmime/contentDisposition.cpp
index 8c78475..23ea3f3 100644
--- a/src/vmime/contentDisposition.cpp
+++ b/src/vmime/contentDisposition.cpp
@@ -92,7 +92,7 @@ contentDisposition& contentDisposition::operator=(const string& name) {
 
 bool contentDisposition::operator==(const contentDisposition& value) const {
 
-	return utility::stringUtils::toLower(m_name) == value.m_name;
+	return utility::stringUtils::isStringEqualNoCase(m_name, value.m_name);
 }
 
 
-- 
2.43.0


From a8f7a232051b5a97990d684d9dc48a02ca99adde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:24:25 +0000
Subject: [PATCH 110/118] fix: an assigned group of mailboxes has its own
 mailboxes

---
 src/vmime/mailboxGroup.cpp | 7 +++++++
 src/vmime/mailboxGroup.hpp | 1 +
 2 files changed, 8 insertions(+)

diff --git a/src/vmime/mailboxGroup.cpp b/src/vmime/mailboxGroup.cpp
index 64c3a8a..7df4119 100644
--- a/src/vmime/mailboxGroup.cpp
+++ b/src/vmime/mailboxGroup.cpp
@@ -255,6 +255,13 @@ mailboxGroup& mailboxGroup::operator=(const component& other) {
 }
 
 
+mailboxGroup& mailboxGroup::operator=(const mailboxGroup& other) {
+
+	copyFrom(other);
+	return *this;
+}
+
+
 const text& mailboxGroup::getName() const {
 
 	return m_name;
diff --git a/src/vmime/mailboxGroup.hpp b/src/vmime/mailboxGroup.hpp
index 494f22a..d4da612 100644
--- a/src/vmime/mailboxGroup.hpp
+++ b/src/vmime/mailboxGroup.hpp
@@ -49,6 +49,7 @@ public:
 	void copyFrom(const component& other);
 	shared_ptr <component> clone() const;
 	mailboxGroup& operator=(const component& other);
+	mailboxGroup& operator=(const mailboxGroup& other);
 
 	const std::vector <shared_ptr <component> > getChildComponents();
 
-- 
2.43.0


From ccb99c3306a01a008d34a9935d00be80c4f6e361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:25:10 +0000
Subject: [PATCH 111/118] fix: comparison of encodings ignores case on both
 sides

---
 src/vmime/encoding.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vmime/encoding.cpp b/src/vmime/encoding.cpp
index e12f4f6..a54b870 100644
--- a/src/vmime/encoding.cpp
+++ b/src/vmime/encoding.cpp
@@ -140,7 +140,7 @@ encoding& encoding::operator=(const string& name) {
 
 bool encoding::operator==(const encoding& value) const {
 
-	return utility::stringUtils::toLower(m_name) == value.m_name;
+	return utility::stringUtils::isStringEqualNoCase(m_name, value.m_name);
 }
 
 
-- 
2.43.0


From 9e7651fbda9891f0934e6e4a204d0f682daf92c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:38:43 +0000
Subject: [PATCH 112/118] fix: a maildir folder that cannot be scanned keeps
 the messages it knows

maildirFolder::scanFolder reset the message count before reading the
directories, so that a failure made the folder report no message, with
the list of messages kept: messages were numbered wrongly afterwards.
---
 src/vmime/net/maildir/maildirFolder.cpp | 30 ++++++++++++-------------
 1 file changed, 14 insertions(+), 16 deletions(-)

diff --git a/src/vmime/net/maildir/maildirFolder.cpp b/src/vmime/net/maildir/maildirFolder.cpp
index e4357cf..14837d2 100644
--- a/src/vmime/net/maildir/maildirFolder.cpp
+++ b/src/vmime/net/maildir/maildirFolder.cpp
@@ -292,9 +292,6 @@ void maildirFolder::scanFolder() {
 
 	try {
 
-		m_messageCount = 0;
-		m_unreadMessageCount = 0;
-
 		shared_ptr <utility::fileSystemFactory> fsf = platform::getHandler()->getFileSystemFactory();
 
 		utility::file::path newDirPath =
@@ -435,24 +432,25 @@ void maildirFolder::scanFolder() {
 			m_messageInfos.push_back(msgInfos);
 		}
 
-		// Update message count
-		size_t unreadMessageCount = 0;
-
-		for (std::vector <messageInfos>::const_iterator
-		     it = m_messageInfos.begin() ; it != m_messageInfos.end() ; ++it) {
+	} catch (exceptions::filesystem_exception&) {
 
-			if ((maildirUtils::extractFlags((*it).path) & message::FLAG_SEEN) == 0) {
-				++unreadMessageCount;
-			}
-		}
+		// Should not happen...
+	}
 
-		m_unreadMessageCount = unreadMessageCount;
-		m_messageCount = static_cast <size_t>(m_messageInfos.size());
+	// Update message count: if the folder could not be scanned, the messages
+	// already known are still there
+	size_t unreadMessageCount = 0;
 
-	} catch (exceptions::filesystem_exception&) {
+	for (std::vector <messageInfos>::const_iterator
+	     it = m_messageInfos.begin() ; it != m_messageInfos.end() ; ++it) {
 
-		// Should not happen...
+		if ((maildirUtils::extractFlags((*it).path) & message::FLAG_SEEN) == 0) {
+			++unreadMessageCount;
+		}
 	}
+
+	m_unreadMessageCount = unreadMessageCount;
+	m_messageCount = static_cast <size_t>(m_messageInfos.size());
 }
 
 
-- 
2.43.0


From f75327fb3504b651e2c53475e4e592f89d707ab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:52:23 +0000
Subject: [PATCH 113/118] fix: a message added as recent to an open maildir
 folder can be read

It is delivered to the 'new' directory, while the folder looked for its
file in 'cur' until the next scan: it could not be read, flagged or copied.
---
 src/vmime/net/maildir/maildirFolder.cpp | 23 ++++++++++++++---------
 src/vmime/net/maildir/maildirFolder.hpp |  1 +
 2 files changed, 15 insertions(+), 9 deletions(-)

diff --git a/src/vmime/net/maildir/maildirFolder.cpp b/src/vmime/net/maildir/maildirFolder.cpp
index 14837d2..10fa839 100644
--- a/src/vmime/net/maildir/maildirFolder.cpp
+++ b/src/vmime/net/maildir/maildirFolder.cpp
@@ -375,6 +375,7 @@ void maildirFolder::scanFolder() {
 				file->rename(curDirPath / newFilename);
 
 				msgInfos.path = newFilename;
+				msgInfos.type = messageInfos::TYPE_CUR;
 				newMessageFilenames.erase(newPos);
 
 			// If we cannot find this message, it means it has been deleted
@@ -676,7 +677,7 @@ void maildirFolder::setMessageFlags(
 			try {
 
 				const utility::file::path::component path = m_messageInfos[num].path;
-				shared_ptr <utility::file> file = fsf->create(curDirPath / path);
+				shared_ptr <utility::file> file = fsf->create(getMessageFSPath(num + 1));
 
 				int newFlags = maildirUtils::extractFlags(path);
 
@@ -846,7 +847,7 @@ messageSet maildirFolder::addMessage(
 	// Append the message to the cache list
 	messageInfos msgInfos;
 	msgInfos.path = filename;
-	msgInfos.type = messageInfos::TYPE_CUR;
+	msgInfos.type = flags == message::FLAG_RECENT ? messageInfos::TYPE_NEW : messageInfos::TYPE_CUR;
 
 	m_messageInfos.push_back(msgInfos);
 	m_messageCount++;
@@ -999,9 +1000,6 @@ messageSet maildirFolder::copyMessages(const folder::path& dest, const messageSe
 
 	shared_ptr <utility::fileSystemFactory> fsf = platform::getHandler()->getFileSystemFactory();
 
-	utility::file::path curDirPath =
-		store->getFormat()->folderPathToFileSystemPath(m_path, maildirFormat::CUR_DIRECTORY);
-
 	utility::file::path destCurDirPath = store->getFormat()->
 		folderPathToFileSystemPath(dest, maildirFormat::CUR_DIRECTORY);
 	utility::file::path destTmpDirPath = store->getFormat()->
@@ -1048,7 +1046,7 @@ messageSet maildirFolder::copyMessages(const folder::path& dest, const messageSe
 			const utility::file::path::component filename =
 				maildirUtils::buildFilename(maildirUtils::generateId(), flags);
 
-			shared_ptr <utility::file> file = fsf->create(curDirPath / msg.path);
+			shared_ptr <utility::file> file = fsf->create(getMessageFSPath(num));
 			shared_ptr <utility::fileReader> fr = file->getFileReader();
 			shared_ptr <utility::inputStream> is = fr->getInputStream();
 
@@ -1381,10 +1379,17 @@ int maildirFolder::getFetchCapabilities() const {
 
 const utility::file::path maildirFolder::getMessageFSPath(const size_t number) const {
 
-	utility::file::path curDirPath = m_store.lock()->getFormat()->
-		folderPathToFileSystemPath(m_path, maildirFormat::CUR_DIRECTORY);
+	const messageInfos& infos = m_messageInfos[number - 1];
+
+	utility::file::path dirPath = m_store.lock()->getFormat()->
+		folderPathToFileSystemPath(
+			m_path,
+			infos.type == messageInfos::TYPE_NEW ?
+				maildirFormat::NEW_DIRECTORY :
+				maildirFormat::CUR_DIRECTORY
+		);
 
-	return curDirPath / m_messageInfos[number - 1].path;
+	return dirPath / infos.path;
 }
 
 
diff --git a/src/vmime/net/maildir/maildirFolder.hpp b/src/vmime/net/maildir/maildirFolder.hpp
index 24f2bf8..4ecaa2d 100644
--- a/src/vmime/net/maildir/maildirFolder.hpp
+++ b/src/vmime/net/maildir/maildirFolder.hpp
@@ -187,6 +187,7 @@ private:
 
 		enum Type {
 			TYPE_CUR,
+			TYPE_NEW,       // added by us, still in the 'new' directory
 			TYPE_DELETED
 		};
 
-- 
2.43.0


From 97acbc000f7ad083cf385fd302d00e372267665d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:10:01 +0000
Subject: [PATCH 114/118] fix: a comment next to a quoted string in a mailbox
 is skipped

---
 src/vmime/mailbox.cpp | 32 +++++++++++++++++++++++++++++++-
 1 file changed, 31 insertions(+), 1 deletion(-)

diff --git a/src/vmime/mailbox.cpp b/src/vmime/mailbox.cpp
index d1259b4..c2226fb 100644
--- a/src/vmime/mailbox.cpp
+++ b/src/vmime/mailbox.cpp
@@ -55,6 +55,30 @@ mailbox::mailbox(const text& name, const emailAddress& email)
 }
 
 
+/** Skip the comments at the specified position, if any.
+  *
+  * @param p current position
+  * @param pend end of the buffer
+  * @return position of the first character after the comments
+  */
+static const char* skipComments(const char* p, const char* const pend) {
+
+	unsigned int level = 0;
+
+	for ( ; p < pend && (level || *p == '(') ; ++p) {
+		if (*p == '(') {
+			++level;
+		} else if (*p == ')') {
+			--level;
+		} else if (*p == '\\' && p + 1 < pend) {
+			++p;
+		}
+	}
+
+	return p;
+}
+
+
 /*
 
  RFC #2822:
@@ -111,6 +135,10 @@ void mailbox::parseImpl(
 				state = State_Bracket;
 				continue;
 			}
+			if (*p == '(') {  // Comment
+				p = skipComments(p, pend);
+				continue;
+			}
 			if (*p == '"') {  // Quoted string
 				state = State_String;
 				++p;
@@ -139,7 +167,9 @@ void mailbox::parseImpl(
 				name += *p;
 			}
 
-			if (state == State_None && p < pend && *p == '@') {
+			const char* const next = skipComments(p, pend);
+
+			if (state == State_None && next < pend && *next == '@') {
 				// Actually, this is the quoted local-part of an address
 				// and not a display name...
 				address.assign(quotedStart, p);
-- 
2.43.0


From 729b63df5012e077ef0fac8a407c17010f3fbaad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:12:25 +0000
Subject: [PATCH 115/118] fix: an IMAP folder whose name contains wildcards is
 not taken for others

---
 src/vmime/net/imap/IMAPFolder.cpp | 28 +++++++++++++++++++++-------
 1 file changed, 21 insertions(+), 7 deletions(-)

diff --git a/src/vmime/net/imap/IMAPFolder.cpp b/src/vmime/net/imap/IMAPFolder.cpp
index cba7d1d..0e39f7b 100644
--- a/src/vmime/net/imap/IMAPFolder.cpp
+++ b/src/vmime/net/imap/IMAPFolder.cpp
@@ -513,14 +513,15 @@ int IMAPFolder::testExistAndGetType() {
 	//
 	// ==> NO, does not exist
 
-	IMAPCommand::LIST(
-		"",
-		IMAPUtils::pathToString(
-			m_connection->hierarchySeparator(),
-			getFullPath()
-		)
-	)->send(m_connection);
+	const string name = IMAPUtils::pathToString(
+		m_connection->hierarchySeparator(),
+		getFullPath()
+	);
+
+	IMAPCommand::LIST("", name)->send(m_connection);
 
+	// If the name contains wildcards, other folders may be listed
+	const bool hasWildcards = (name.find_first_of("%*") != string::npos);
 
 	scoped_ptr <IMAPParser::response> resp(m_connection->readResponse());
 
@@ -549,6 +550,19 @@ int IMAPFolder::testExistAndGetType() {
 		if (mailboxData &&
 		    mailboxData->type == IMAPParser::mailbox_data::LIST) {
 
+			if (hasWildcards) {
+
+				auto& mailboxList = *mailboxData->mailbox_list;
+
+				const folder::path path = IMAPUtils::stringToPath(
+					mailboxList.quoted_char, mailboxList.mailbox->name
+				);
+
+				if (IMAPUtils::pathToString(m_connection->hierarchySeparator(), path) != name) {
+					continue;
+				}
+			}
+
 			// Get the folder type/flags at the same time
 			IMAPUtils::mailboxFlagsToFolderAttributes(
 				m_connection,
-- 
2.43.0


From a35fd0319643242e6edd021e67e8df6da8cbecb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:17:56 +0000
Subject: [PATCH 116/118] fix: skipping or seeking by a huge amount does not
 leave the stream

---
 src/vmime/utility/inputStreamStringAdapter.cpp         | 6 +++---
 src/vmime/utility/seekableInputStreamRegionAdapter.cpp | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/vmime/utility/inputStreamStringAdapter.cpp b/src/vmime/utility/inputStreamStringAdapter.cpp
index 4de30f9..309a0a7 100644
--- a/src/vmime/utility/inputStreamStringAdapter.cpp
+++ b/src/vmime/utility/inputStreamStringAdapter.cpp
@@ -64,7 +64,7 @@ void inputStreamStringAdapter::reset() {
 
 size_t inputStreamStringAdapter::read(byte_t* const data, const size_t count) {
 
-	if (m_pos + count >= m_end) {
+	if (count >= m_end - m_pos) {
 
 		const size_t remaining = m_end - m_pos;
 
@@ -85,7 +85,7 @@ size_t inputStreamStringAdapter::read(byte_t* const data, const size_t count) {
 
 size_t inputStreamStringAdapter::skip(const size_t count) {
 
-	if (m_pos + count >= m_end) {
+	if (count >= m_end - m_pos) {
 
 		const size_t remaining = m_end - m_pos;
 		m_pos = m_end;
@@ -109,7 +109,7 @@ size_t inputStreamStringAdapter::getPosition() const {
 
 void inputStreamStringAdapter::seek(const size_t pos) {
 
-	if (m_begin + pos <= m_end) {
+	if (pos <= m_end - m_begin) {
 		m_pos = m_begin + pos;
 	}
 }
diff --git a/src/vmime/utility/seekableInputStreamRegionAdapter.cpp b/src/vmime/utility/seekableInputStreamRegionAdapter.cpp
index 3272366..43ce2d6 100644
--- a/src/vmime/utility/seekableInputStreamRegionAdapter.cpp
+++ b/src/vmime/utility/seekableInputStreamRegionAdapter.cpp
@@ -59,7 +59,7 @@ size_t seekableInputStreamRegionAdapter::read(byte_t* const data, const size_t c
 
 	size_t readBytes = 0;
 
-	if (m_position + count >= m_length) {
+	if (count >= m_length - m_position) {
 
 		const size_t remaining = m_length - m_position;
 		readBytes = m_stream->read(data, remaining);
@@ -77,7 +77,7 @@ size_t seekableInputStreamRegionAdapter::read(byte_t* const data, const size_t c
 
 size_t seekableInputStreamRegionAdapter::skip(const size_t count) {
 
-	if (m_position + count >= m_length) {
+	if (count >= m_length - m_position) {
 
 		const size_t remaining = m_length - m_position;
 		m_position += remaining;
-- 
2.43.0


From 2e5d582c4086586d6ba425a955b15ca44b614384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:18:27 +0000
Subject: [PATCH 117/118] fix: a range of a part of a maildir message ends with
 the part

---
 src/vmime/net/maildir/maildirMessage.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/vmime/net/maildir/maildirMessage.cpp b/src/vmime/net/maildir/maildirMessage.cpp
index ae99c59..fcbfa25 100644
--- a/src/vmime/net/maildir/maildirMessage.cpp
+++ b/src/vmime/net/maildir/maildirMessage.cpp
@@ -213,13 +213,13 @@ void maildirMessage::extractImpl(
 	shared_ptr <utility::fileReader> reader = file->getFileReader();
 	shared_ptr <utility::inputStream> is = reader->getInputStream();
 
-	is->skip(start + partialStart);
+	is->skip(start + std::min(partialStart, length));
 
 	byte_t buffer[8192];
 	size_t remaining =
-		(partialLength == static_cast <size_t>(-1)
-			? length
-			: std::min(partialLength, length)
+		(partialStart >= length
+			? 0
+			: std::min(partialLength, length - partialStart)
 		);
 
 	const size_t total = remaining;
-- 
2.43.0


From 1f7cf899f82532884d87aeff85c2063a2f8ab7cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:30:22 +0000
Subject: [PATCH 118/118] fix: copies of a file attachment or of its
 information share nothing to be freed twice

---
 src/vmime/fileAttachment.cpp | 25 +++++++++++++++++++++++++
 src/vmime/fileAttachment.hpp |  3 +++
 2 files changed, 28 insertions(+)

diff --git a/src/vmime/fileAttachment.cpp b/src/vmime/fileAttachment.cpp
index ac75570..8bc0c44 100644
--- a/src/vmime/fileAttachment.cpp
+++ b/src/vmime/fileAttachment.cpp
@@ -27,6 +27,7 @@
 #if VMIME_HAVE_FILESYSTEM_FEATURES
 
 
+#include <algorithm>
 #include <fstream>
 #include <sstream>
 
@@ -216,6 +217,30 @@ fileAttachment::fileInfo::fileInfo()
 }
 
 
+fileAttachment::fileInfo::fileInfo(const fileInfo& other)
+	: m_filename(other.m_filename ? new word(*other.m_filename) : NULL),
+	  m_size(other.m_size ? new size_t(*other.m_size) : NULL),
+	  m_creationDate(other.m_creationDate ? new datetime(*other.m_creationDate) : NULL),
+	  m_modifDate(other.m_modifDate ? new datetime(*other.m_modifDate) : NULL),
+	  m_readDate(other.m_readDate ? new datetime(*other.m_readDate) : NULL) {
+
+}
+
+
+fileAttachment::fileInfo& fileAttachment::fileInfo::operator=(const fileInfo& other) {
+
+	fileInfo copy(other);
+
+	std::swap(m_filename, copy.m_filename);
+	std::swap(m_size, copy.m_size);
+	std::swap(m_creationDate, copy.m_creationDate);
+	std::swap(m_modifDate, copy.m_modifDate);
+	std::swap(m_readDate, copy.m_readDate);
+
+	return *this;
+}
+
+
 fileAttachment::fileInfo::~fileInfo()
 {
 	delete m_filename;
diff --git a/src/vmime/fileAttachment.hpp b/src/vmime/fileAttachment.hpp
index c77662f..8f21c5e 100644
--- a/src/vmime/fileAttachment.hpp
+++ b/src/vmime/fileAttachment.hpp
@@ -92,8 +92,11 @@ public:
 	public:
 
 		fileInfo();
+		fileInfo(const fileInfo& other);
 		~fileInfo();
 
+		fileInfo& operator=(const fileInfo& other);
+
 		/** Check whether the 'filename' property is present.
 		  *
 		  * @return true if the 'filename' property is set,
-- 
2.43.0

