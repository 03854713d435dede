From 27388f9c45ab1a809de6bd7fc945a937e509c089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:37 +0000
Subject: [PATCH 01/32] fix: keep growable buffers consistent across pages and
 after truncation

Reads and modifications compared the index with the length of one page, so
entries after the first page were unreachable; pages in use were mistaken for
entries; appending after SetSize or Clear continued behind stale entries and
conversion to an array returned them. Object buffers never left page 0.
---
 vtdxml/buffer/int_buffer.go    | 18 +++++++++++++-----
 vtdxml/buffer/long_buffer.go   | 18 +++++++++++++-----
 vtdxml/buffer/object_buffer.go | 32 +++++++++++++++++++++++---------
 3 files changed, 49 insertions(+), 19 deletions(-)

diff --git a/vtdxml/buffer/int_buffer.go b/vtdxml/buffer/int_buffer.go
index 4860fef..3b8b430 100644
--- a/vtdxml/buffer/int_buffer.go
+++ b/vtdxml/buffer/int_buffer.go
@@ -66,7 +66,7 @@ func (b *FastIntBuffer) IntAt(index int) (int32, error) {
 	if err != nil {
 		return 0, err
 	}
-	if index < 0 || index >= len(bufferSlice) {
+	if index < 0 || index >= b.size {
 		return 0, erroring.NewInvalidArgumentError("index", erroring.IndexOutOfRange, nil)
 	}
 	v := bufferSlice[offset]
@@ -81,7 +81,7 @@ func (b *FastIntBuffer) ModifyEntry(index int, value int32) error {
 	}
 
 	offset := index & b.r
-	if index < 0 || index >= len(bufferSlice) {
+	if index < 0 || index >= b.size {
 		return erroring.NewInvalidArgumentError("index", erroring.IndexOutOfRange, nil)
 	}
 	bufferSlice[offset] = value
@@ -93,6 +93,10 @@ func (b *FastIntBuffer) GetSize() int {
 }
 
 func (b *FastIntBuffer) SetSize(size int) {
+	// a buffer can only be truncated
+	if size < 0 || size > b.size {
+		return
+	}
 	b.size = size
 }
 
@@ -113,6 +117,9 @@ func (b *FastIntBuffer) ToIntArray() ([]int32, error) {
 			return nil, err
 		}
 		// load-in buffer page into int32 slice
+		if size < len(buffer) {
+			buffer = buffer[:size]
+		}
 		for j := range buffer {
 			v := buffer[j]
 			intArray = append(intArray, v)
@@ -130,7 +137,8 @@ func (b *FastIntBuffer) Append(value int32) error {
 		if err != nil {
 			return err
 		}
-		bufferSlice = append(bufferSlice, value)
+		// drop entries of the page that were truncated before appending
+		bufferSlice = append(bufferSlice[:b.size&b.r], value)
 		b.size++
 		return b.set(pageNum, bufferSlice)
 	} else {
@@ -146,14 +154,14 @@ func (b *FastIntBuffer) Clear() {
 }
 
 func (b *FastIntBuffer) get(index int) ([]int32, error) {
-	if index < 0 || index >= b.size {
+	if index < 0 || index >= len(b.buffer) {
 		return nil, erroring.NewInvalidArgumentError("index", erroring.IndexOutOfRange, nil)
 	}
 	return b.buffer[index], nil
 }
 
 func (b *FastIntBuffer) set(index int, value []int32) error {
-	if index < 0 || index >= b.size {
+	if index < 0 || index >= len(b.buffer) {
 		return erroring.NewInvalidArgumentError("index", erroring.IndexOutOfRange, nil)
 	}
 	b.buffer[index] = value
diff --git a/vtdxml/buffer/long_buffer.go b/vtdxml/buffer/long_buffer.go
index 93390ed..b00f908 100644
--- a/vtdxml/buffer/long_buffer.go
+++ b/vtdxml/buffer/long_buffer.go
@@ -65,7 +65,7 @@ func (b *FastLongBuffer) LongAt(index int) (int64, error) {
 	if err != nil {
 		return 0, erroring.NewInvalidArgumentError("index", erroring.IndexOutOfRange, nil)
 	}
-	if index < 0 || index >= len(bufferSlice) {
+	if index < 0 || index >= b.size {
 		return 0, erroring.NewInvalidArgumentError("index", erroring.IndexOutOfRange, nil)
 	}
 	v := bufferSlice[offset]
@@ -79,7 +79,7 @@ func (b *FastLongBuffer) ModifyEntry(index int, value int64) error {
 		return erroring.NewInvalidArgumentError("index", erroring.IndexOutOfRange, err)
 	}
 	offset := index & b.r
-	if index < 0 || index >= len(bufferSlice) {
+	if index < 0 || index >= b.size {
 		return erroring.NewInvalidArgumentError("index", erroring.IndexOutOfRange, nil)
 	}
 	bufferSlice[offset] = value
@@ -91,6 +91,10 @@ func (b *FastLongBuffer) GetSize() int {
 }
 
 func (b *FastLongBuffer) SetSize(size int) {
+	// a buffer can only be truncated
+	if size < 0 || size > b.size {
+		return
+	}
 	b.size = size
 }
 
@@ -133,6 +137,9 @@ func (b *FastLongBuffer) ToLongArray() ([]int64, error) {
 			return nil, err
 		}
 		// load-in buffer page into int64 slice
+		if size < len(buffer) {
+			buffer = buffer[:size]
+		}
 		for j := range buffer {
 			v := buffer[j]
 			intArray = append(intArray, v)
@@ -150,7 +157,8 @@ func (b *FastLongBuffer) Append(value int64) error {
 		if err != nil {
 			return err
 		}
-		bufferSlice = append(bufferSlice, value)
+		// drop entries of the page that were truncated before appending
+		bufferSlice = append(bufferSlice[:b.size&b.r], value)
 		b.size++
 		return b.set(pageNum, bufferSlice)
 	} else {
@@ -166,14 +174,14 @@ func (b *FastLongBuffer) Clear() {
 }
 
 func (b *FastLongBuffer) get(index int) ([]int64, error) {
-	if index < 0 || index >= b.size {
+	if index < 0 || index >= len(b.buffer) {
 		return nil, erroring.NewInvalidArgumentError("index", erroring.IndexOutOfRange, nil)
 	}
 	return b.buffer[index], nil
 }
 
 func (b *FastLongBuffer) set(index int, value []int64) error {
-	if index < 0 || index >= b.size {
+	if index < 0 || index >= len(b.buffer) {
 		return erroring.NewInvalidArgumentError("index", erroring.IndexOutOfRange, nil)
 	}
 	b.buffer[index] = value
diff --git a/vtdxml/buffer/object_buffer.go b/vtdxml/buffer/object_buffer.go
index 07bc0f3..4710ee5 100644
--- a/vtdxml/buffer/object_buffer.go
+++ b/vtdxml/buffer/object_buffer.go
@@ -20,7 +20,8 @@ type ObjectBuffer interface {
 type FastObjectBuffer struct {
 	buffer   [][]interface{}
 	capacity int
-	size     int
+	size     int // number of pages in use
+	count    int // number of objects held
 	exp      int
 	r        int
 	pageSize int
@@ -62,7 +63,7 @@ func (b *FastObjectBuffer) ObjectAt(index int) (interface{}, error) {
 	if err != nil {
 		return nil, erroring.NewInvalidArgumentError("index", erroring.IndexOutOfRange, err)
 	}
-	if index < 0 || index >= len(bufferSlice) {
+	if index < 0 || index >= b.count {
 		return nil, erroring.NewInvalidArgumentError("index", erroring.IndexOutOfRange, nil)
 	}
 	v := bufferSlice[offset]
@@ -77,7 +78,7 @@ func (b *FastObjectBuffer) ModifyEntry(index int, value interface{}) error {
 	}
 
 	offset := index & b.r
-	if index < 0 || index >= len(bufferSlice) {
+	if index < 0 || index >= b.count {
 		return erroring.NewInvalidArgumentError("index", erroring.IndexOutOfRange, nil)
 	}
 	bufferSlice[offset] = value
@@ -89,19 +90,31 @@ func (b *FastObjectBuffer) GetSize() int {
 }
 
 func (b *FastObjectBuffer) SetSize(size int) {
-	b.size = size
+	// a buffer can only be truncated
+	if size < 0 || size > b.count {
+		return
+	}
+	b.count = size
+	b.size = size >> b.exp
+	if size&b.r != 0 {
+		b.size++
+	}
 }
 
 func (b *FastObjectBuffer) Append(value interface{}) error {
-	if b.size < b.capacity {
-		pageNum := b.size >> b.exp
+	if b.count < b.capacity {
+		pageNum := b.count >> b.exp
 		bufferSlice, err := b.get(pageNum)
 		if err != nil {
 			return err
 		}
-		bufferSlice = append(bufferSlice, value)
+		// drop entries of the page that were truncated before appending
+		bufferSlice = append(bufferSlice[:b.count&b.r], value)
+		b.count++
+		b.size = pageNum + 1
 		return b.set(pageNum, bufferSlice)
 	} else {
+		b.count++
 		b.size++
 		b.capacity += b.pageSize
 		b.buffer = append(b.buffer, []interface{}{value})
@@ -110,18 +123,19 @@ func (b *FastObjectBuffer) Append(value interface{}) error {
 }
 
 func (b *FastObjectBuffer) Clear() {
+	b.count = 0
 	b.size = 0
 }
 
 func (b *FastObjectBuffer) get(index int) ([]interface{}, error) {
-	if index < 0 || index >= b.size {
+	if index < 0 || index >= len(b.buffer) {
 		return nil, erroring.NewInvalidArgumentError("index", erroring.IndexOutOfRange, nil)
 	}
 	return b.buffer[index], nil
 }
 
 func (b *FastObjectBuffer) set(index int, value []interface{}) error {
-	if index < 0 || index >= b.size {
+	if index < 0 || index >= len(b.buffer) {
 		return erroring.NewInvalidArgumentError("index", erroring.IndexOutOfRange, nil)
 	}
 	b.buffer[index] = value
-- 
2.43.0


From 0cbe722344b8783429610621893489a37ac3c644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:37 +0000
Subject: [PATCH 02/32] fix: return all 32 bits of the upper half of a long
 buffer entry

---
 vtdxml/buffer/long_buffer.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/vtdxml/buffer/long_buffer.go b/vtdxml/buffer/long_buffer.go
index b00f908..42ed2f1 100644
--- a/vtdxml/buffer/long_buffer.go
+++ b/vtdxml/buffer/long_buffer.go
@@ -114,7 +114,6 @@ func (b *FastLongBuffer) Upper32At(index int) (int32, error) {
 	if err != nil {
 		return 0, erroring.NewInvalidArgumentError("index", erroring.IndexOutOfRange, err)
 	}
-	valueLong = valueLong & (0xFFFFFFF << 32)
 	valueLong = valueLong >> 32
 	valueInt := int32(valueLong)
 	return valueInt, nil
-- 
2.43.0


From 8b08f978f9dd1ce10135ebe4bb0d1c6ad4b9f6fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:38 +0000
Subject: [PATCH 03/32] fix: reject page size exponents that give no usable
 buffer page

---
 vtdxml/buffer/int_buffer.go    | 2 +-
 vtdxml/buffer/long_buffer.go   | 7 ++++++-
 vtdxml/buffer/object_buffer.go | 7 ++++++-
 3 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/vtdxml/buffer/int_buffer.go b/vtdxml/buffer/int_buffer.go
index 3b8b430..55ca977 100644
--- a/vtdxml/buffer/int_buffer.go
+++ b/vtdxml/buffer/int_buffer.go
@@ -51,7 +51,7 @@ func NewFastIntBuffer(opts ...FastIntBufferOption) (*FastIntBuffer, error) {
 		opt(b)
 	}
 
-	if b.pageSize == 0 || b.r < 0 {
+	if b.pageSize <= 0 || b.r < 0 {
 		return nil, erroring.NewInvalidArgumentError("size", erroring.InvalidBufferPageSize, nil)
 	}
 
diff --git a/vtdxml/buffer/long_buffer.go b/vtdxml/buffer/long_buffer.go
index 42ed2f1..8556cd6 100644
--- a/vtdxml/buffer/long_buffer.go
+++ b/vtdxml/buffer/long_buffer.go
@@ -31,6 +31,11 @@ type FastLongBuffer struct {
 
 func WithFastLongBufferPageSize(size int) FastLongBufferOption {
 	return func(b *FastLongBuffer) {
+		if size < 0 {
+			// rejected by the constructor
+			b.pageSize = 0
+			return
+		}
 		b.pageSize = 1 << size
 		b.exp = size
 		b.r = b.pageSize - 1
@@ -50,7 +55,7 @@ func NewFastLongBuffer(opts ...FastLongBufferOption) (*FastLongBuffer, error) {
 	for _, opt := range opts {
 		opt(b)
 	}
-	if b.pageSize == 0 || b.r < 0 {
+	if b.pageSize <= 0 || b.r < 0 {
 		return nil, erroring.NewInvalidArgumentError("size", erroring.InvalidBufferPageSize, nil)
 	}
 
diff --git a/vtdxml/buffer/object_buffer.go b/vtdxml/buffer/object_buffer.go
index 4710ee5..ab27761 100644
--- a/vtdxml/buffer/object_buffer.go
+++ b/vtdxml/buffer/object_buffer.go
@@ -29,6 +29,11 @@ type FastObjectBuffer struct {
 
 func WithFastObjectBufferPageSize(size int) FastObjectBufferOption {
 	return func(b *FastObjectBuffer) {
+		if size < 0 {
+			// rejected by the constructor
+			b.pageSize = 0
+			return
+		}
 		b.pageSize = 1 << size
 		b.exp = size
 		b.r = b.pageSize - 1
@@ -48,7 +53,7 @@ func NewFastObjectBuffer(opts ...FastObjectBufferOption) (*FastObjectBuffer, err
 	for _, opt := range opts {
 		opt(b)
 	}
-	if b.pageSize == 0 || b.r < 0 {
+	if b.pageSize <= 0 || b.r < 0 {
 		return nil, erroring.NewInvalidArgumentError("size", erroring.InvalidBufferPageSize, nil)
 	}
 
-- 
2.43.0


From 2eaa6f192792875490579b762c1f99bf3e03f08a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:38 +0000
Subject: [PATCH 04/32] fix: byte buffer slices start at the offset and span
 the given length

---
 vtdxml/buffer/byte_buffer.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vtdxml/buffer/byte_buffer.go b/vtdxml/buffer/byte_buffer.go
index 7f2664e..336a083 100644
--- a/vtdxml/buffer/byte_buffer.go
+++ b/vtdxml/buffer/byte_buffer.go
@@ -33,10 +33,10 @@ func (b *UniByteBuffer) GetByteSlice(offset int, length int) ([]byte, error) {
 	if offset < 0 || offset >= len(b.buffer) {
 		return nil, erroring.NewInvalidArgumentError("offset", erroring.IndexOutOfRange, nil)
 	}
-	if length < 1 || offset+length >= len(b.buffer) {
+	if length < 1 || length >= len(b.buffer)-offset {
 		return nil, erroring.NewInvalidArgumentError("length", erroring.InvalidSliceLength, nil)
 	}
-	return b.buffer[offset:length], nil
+	return b.buffer[offset : offset+length], nil
 }
 
 func (b *UniByteBuffer) GetBytes() []byte {
-- 
2.43.0


From cd26a39d70360c2d5043c387b00b12347711d7a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:06 +0000
Subject: [PATCH 05/32] fix: control characters are not valid XML characters

---
 vtdxml/common/xml_char.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vtdxml/common/xml_char.go b/vtdxml/common/xml_char.go
index 167f8be..d5713e9 100644
--- a/vtdxml/common/xml_char.go
+++ b/vtdxml/common/xml_char.go
@@ -20,7 +20,7 @@ func NewXmlChar() *XmlChar {
 	}
 
 	// Set all valid characters
-	rangeSlice := [][]uint32{{0x1, 0xD7FF}, {0xE000, 0xFFFD}, {0x10000, 0x10FFFF}}
+	rangeSlice := [][]uint32{{0x9, 0xA}, {0xD, 0xD}, {0x20, 0xD7FF}, {0xE000, 0xFFFD}, {0x10000, 0x10FFFF}}
 	for _, i := range rangeSlice {
 		for j := i[0]; j <= i[1]; j++ {
 			// exclude surrogate blocks, 0xFFFE and 0xFFFF
-- 
2.43.0


From d86904cd2ffa42e2b93fa1dabd7d03bb3e29c918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:26 +0000
Subject: [PATCH 06/32] fix: navigation errors are of type NavigationError

---
 vtdxml/erroring/erroring.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vtdxml/erroring/erroring.go b/vtdxml/erroring/erroring.go
index c6a1e3a..68178a7 100644
--- a/vtdxml/erroring/erroring.go
+++ b/vtdxml/erroring/erroring.go
@@ -124,8 +124,8 @@ type NavigationError struct {
 }
 
 // NewNavigationError constructs a new NavigationError, wrapping the provided error.
-func NewNavigationError(msg string, err error) *ParseError {
-	return &ParseError{
+func NewNavigationError(msg string, err error) *NavigationError {
+	return &NavigationError{
 		baseError: newBaseError(
 			fmt.Sprintf("a navigation error occurred: %s", msg),
 			err,
-- 
2.43.0


From 8c9912e8bd5751837759b07feee912fe3bcd8b27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:11 +0000
Subject: [PATCH 07/32] fix: readers stay inside their window and decode whole
 UTF-8 characters

Skips and lookups ignored the end of the window and panicked at the end of the
document, the ASCII reader refused a window ending with the document, failed
sequence skips consumed a prefix, and UTF-8 was read byte by byte without any
validation.
---
 vtdxml/reader/ascii_reader.go | 41 +++++++++++++++-----
 vtdxml/reader/utf8_reader.go  | 70 +++++++++++++++++++++++++----------
 2 files changed, 81 insertions(+), 30 deletions(-)

diff --git a/vtdxml/reader/ascii_reader.go b/vtdxml/reader/ascii_reader.go
index fcd68e9..c7f92a9 100644
--- a/vtdxml/reader/ascii_reader.go
+++ b/vtdxml/reader/ascii_reader.go
@@ -7,9 +7,10 @@ import (
 )
 
 type AsciiReader struct {
-	xmlDoc    []byte
-	offset    int
-	endOffset int
+	xmlDoc      []byte
+	offset      int
+	startOffset int
+	endOffset   int
 }
 
 func NewAsciiReader(xmlDoc []byte, offset, endOffset int) (*AsciiReader, error) {
@@ -19,18 +20,22 @@ func NewAsciiReader(xmlDoc []byte, offset, endOffset int) (*AsciiReader, error)
 	if offset < 0 {
 		return nil, erroring.NewInvalidArgumentError("offset", erroring.IndexOutOfRange, nil)
 	}
-	if endOffset < 0 || endOffset >= len(xmlDoc) {
+	if endOffset < 0 || endOffset > len(xmlDoc) {
 		return nil, erroring.NewInvalidArgumentError("endOffset", erroring.IndexOutOfRange, nil)
 	}
+	if offset > endOffset {
+		return nil, erroring.NewInvalidArgumentError("offset", erroring.IndexOutOfRange, nil)
+	}
 	return &AsciiReader{
-		xmlDoc:    xmlDoc,
-		offset:    offset,
-		endOffset: endOffset,
+		xmlDoc:      xmlDoc,
+		offset:      offset,
+		startOffset: offset,
+		endOffset:   endOffset,
 	}, nil
 }
 
 func (r *AsciiReader) GetChar() (uint32, error) {
-	if r.offset >= r.endOffset {
+	if !r.inWindow(r.offset) {
 		return 0, erroring.NewEOFError(erroring.XmlIncomplete)
 	}
 	ch := r.xmlDoc[r.offset]
@@ -42,15 +47,21 @@ func (r *AsciiReader) GetChar() (uint32, error) {
 }
 
 func (r *AsciiReader) GetLongCharAt(offset int32) (uint64, error) {
+	if !r.inWindow(int(offset)) {
+		return 0, erroring.NewEOFError(erroring.XmlIncomplete)
+	}
 	ch := r.xmlDoc[offset]
-	if ch == byte('\r') && r.xmlDoc[offset+1] == byte('\n') {
+	if !r.isASCII(ch) {
+		return 0, erroring.NewParseError("invalid ASCII character", "", nil)
+	}
+	if ch == byte('\r') && r.inWindow(int(offset)+1) && r.xmlDoc[int(offset)+1] == byte('\n') {
 		return (2 << 32) | '\n', nil
 	}
 	return (1 << 32) | uint64(ch), nil
 }
 
 func (r *AsciiReader) SkipChar(ch uint32) bool {
-	if ch == uint32(r.xmlDoc[r.offset]) {
+	if r.inWindow(r.offset) && ch == uint32(r.xmlDoc[r.offset]) && r.isASCII(r.xmlDoc[r.offset]) {
 		r.offset++
 		return true
 	} else {
@@ -59,8 +70,10 @@ func (r *AsciiReader) SkipChar(ch uint32) bool {
 }
 
 func (r *AsciiReader) SkipCharSeq(seq string) bool {
+	startOffset := r.offset
 	for _, ch := range seq {
 		if !r.SkipChar(uint32(ch)) {
+			r.offset = startOffset
 			return false
 		}
 	}
@@ -68,6 +81,9 @@ func (r *AsciiReader) SkipCharSeq(seq string) bool {
 }
 
 func (r *AsciiReader) GetCharAt(offset int32) (uint32, error) {
+	if !r.inWindow(int(offset)) {
+		return 0, erroring.NewEOFError(erroring.XmlIncomplete)
+	}
 	return uint32(r.xmlDoc[offset]), nil
 }
 
@@ -79,6 +95,11 @@ func (r *AsciiReader) SetOffset(offset int) {
 	r.offset = offset
 }
 
+// inWindow function to check that an offset lies inside the reader window
+func (r *AsciiReader) inWindow(offset int) bool {
+	return offset >= r.startOffset && offset < r.endOffset
+}
+
 // isASCII function to validate if a character is a valid ASCII character
 func (r *AsciiReader) isASCII(ch uint8) bool {
 	return ch <= unicode.MaxASCII
diff --git a/vtdxml/reader/utf8_reader.go b/vtdxml/reader/utf8_reader.go
index 8b68251..dd17a40 100644
--- a/vtdxml/reader/utf8_reader.go
+++ b/vtdxml/reader/utf8_reader.go
@@ -1,15 +1,16 @@
 package reader
 
 import (
-	"unicode"
+	"unicode/utf8"
 
 	"github.com/alexZaicev/go-vtd-xml/vtdxml/erroring"
 )
 
 type Utf8Reader struct {
-	xmlDoc    []byte
-	offset    int
-	endOffset int
+	xmlDoc      []byte
+	offset      int
+	startOffset int
+	endOffset   int
 }
 
 func NewUtf8Reader(xmlDoc []byte, offset, endOffset int) (*Utf8Reader, error) {
@@ -22,40 +23,57 @@ func NewUtf8Reader(xmlDoc []byte, offset, endOffset int) (*Utf8Reader, error) {
 	if endOffset < 0 || endOffset > len(xmlDoc) {
 		return nil, erroring.NewInvalidArgumentError("endOffset", erroring.IndexOutOfRange, nil)
 	}
+	if offset > endOffset {
+		return nil, erroring.NewInvalidArgumentError("offset", erroring.IndexOutOfRange, nil)
+	}
 	return &Utf8Reader{
-		xmlDoc:    xmlDoc,
-		offset:    offset,
-		endOffset: endOffset,
+		xmlDoc:      xmlDoc,
+		offset:      offset,
+		startOffset: offset,
+		endOffset:   endOffset,
 	}, nil
 }
 
 func (r *Utf8Reader) GetChar() (uint32, error) {
-	if r.offset >= r.endOffset {
+	if !r.inWindow(r.offset) {
 		return 0, erroring.NewEOFError(erroring.XmlIncomplete)
 	}
-	ch := r.xmlDoc[r.offset]
-	r.offset++
-	if !r.isUTF8(ch) {
+	ch, size := r.decode(r.offset)
+	if size == 0 {
+		r.offset++
 		return 0, erroring.NewParseError("invalid UTF-8 character", "", nil)
 	}
-	return uint32(ch), nil
+	r.offset += size
+	return ch, nil
 }
 
 func (r *Utf8Reader) GetLongCharAt(offset int32) (uint64, error) {
-	ch := r.xmlDoc[offset]
-	if ch == byte('\r') && r.xmlDoc[offset+1] == byte('\n') {
+	if !r.inWindow(int(offset)) {
+		return 0, erroring.NewEOFError(erroring.XmlIncomplete)
+	}
+	ch, size := r.decode(int(offset))
+	if size == 0 {
+		return 0, erroring.NewParseError("invalid UTF-8 character", "", nil)
+	}
+	if ch == '\r' && r.inWindow(int(offset)+1) && r.xmlDoc[int(offset)+1] == byte('\n') {
 		return (2 << 32) | '\n', nil
 	}
-	return (1 << 32) | uint64(ch), nil
+	return uint64(size)<<32 | uint64(ch), nil
 }
 
 func (r *Utf8Reader) GetCharAt(offset int32) (uint32, error) {
+	if !r.inWindow(int(offset)) {
+		return 0, erroring.NewEOFError(erroring.XmlIncomplete)
+	}
 	return uint32(r.xmlDoc[offset]), nil
 }
 
 func (r *Utf8Reader) SkipChar(ch uint32) bool {
-	if ch == uint32(r.xmlDoc[r.offset]) {
-		r.offset++
+	if !r.inWindow(r.offset) {
+		return false
+	}
+	if next, size := r.decode(r.offset); size != 0 && ch == next {
+		r.offset += size
 		return true
 	} else {
 		return false
@@ -63,8 +81,10 @@ func (r *Utf8Reader) SkipChar(ch uint32) bool {
 }
 
 func (r *Utf8Reader) SkipCharSeq(seq string) bool {
+	startOffset := r.offset
 	for _, ch := range seq {
 		if !r.SkipChar(uint32(ch)) {
+			r.offset = startOffset
 			return false
 		}
 	}
@@ -79,7 +99,17 @@ func (r *Utf8Reader) SetOffset(offset int) {
 	r.offset = offset
 }
 
-// isUTF8 function to validate if a character is a valid ASCII character
-func (r *Utf8Reader) isUTF8(ch uint8) bool {
-	return uint32(ch) <= unicode.MaxRune
+// inWindow function to check that an offset lies inside the reader window
+func (r *Utf8Reader) inWindow(offset int) bool {
+	return offset >= r.startOffset && offset < r.endOffset
+}
+
+// decode function decodes the character at the offset and returns it with the
+// number of bytes it occupies, 0 if the bytes are not valid UTF-8
+func (r *Utf8Reader) decode(offset int) (uint32, int) {
+	ch, size := utf8.DecodeRune(r.xmlDoc[offset:r.endOffset])
+	if ch == utf8.RuneError && size < 2 {
+		return 0, 0
+	}
+	return uint32(ch), size
 }
-- 
2.43.0


From 030372e19d5018e1cc1fc94417f77c57e1234392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:11 +0000
Subject: [PATCH 08/32] fix: documents are UTF-8 by default and UTF-8 counts as
 a single byte encoding

FormatUtf8 was ordered behind the UTF-16 formats, so it was taken for a two
byte encoding wherever formats are compared, and the parser never used it.
---
 vtdxml/common/common.go           | 6 +++---
 vtdxml/parser/common.go           | 4 ++--
 vtdxml/parser/process_attr_val.go | 6 +++++-
 vtdxml/parser/vtd_parser.go       | 1 +
 4 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/vtdxml/common/common.go b/vtdxml/common/common.go
index 96f5d39..cb30420 100644
--- a/vtdxml/common/common.go
+++ b/vtdxml/common/common.go
@@ -33,6 +33,7 @@ type FormatEncoding int
 const (
 	FormatAscii FormatEncoding = iota
 	FormatIso88591
+	FormatUtf8
 	FormatIso88592
 	FormatIso88593
 	FormatIso88594
@@ -48,9 +49,6 @@ const (
 	FormatIso885914
 	FormatIso885915
 	FormatIso885916
-	FormatUtf16BE
-	FormatUtf16LE
-	FormatUtf8
 	FormatWin1250
 	FormatWin1251
 	FormatWin1252
@@ -60,4 +58,6 @@ const (
 	FormatWin1256
 	FormatWin1257
 	FormatWin1258
+	FormatUtf16BE
+	FormatUtf16LE
 )
diff --git a/vtdxml/parser/common.go b/vtdxml/parser/common.go
index 7f10ab3..8814175 100644
--- a/vtdxml/parser/common.go
+++ b/vtdxml/parser/common.go
@@ -320,10 +320,10 @@ func (p *VtdParser) fmtCustomLine(offset int) string {
 
 // getPrevOffset function returns previous offset depending on XML document encoding
 func (p *VtdParser) getPrevOffset() (int, error) {
-	prevOffset := p.offset
+	prevOffset := p.offset - 1
 	switch p.encoding {
 	case common.FormatUtf8:
-		for p.xmlDoc[prevOffset]&byte(0xc0) == byte(0x80) {
+		for prevOffset > p.docOffset && p.xmlDoc[prevOffset]&byte(0xc0) == byte(0x80) {
 			prevOffset--
 		}
 		return prevOffset, nil
diff --git a/vtdxml/parser/process_attr_val.go b/vtdxml/parser/process_attr_val.go
index 6d00902..ed48a7a 100644
--- a/vtdxml/parser/process_attr_val.go
+++ b/vtdxml/parser/process_attr_val.go
@@ -94,7 +94,11 @@ func (p *VtdParser) processAttrVal() (State, error) {
 			return StateInvalid, err
 		}
 		if p.xmlChar.IsNameStartChar(p.currentChar) {
-			p.lastOffset = p.offset - p.increment
+			offset, err := p.getPrevOffset()
+			if err != nil {
+				return StateInvalid, err
+			}
+			p.lastOffset = offset
 			return StateAttrName, nil
 		}
 	}
diff --git a/vtdxml/parser/vtd_parser.go b/vtdxml/parser/vtd_parser.go
index d2112df..aba8121 100644
--- a/vtdxml/parser/vtd_parser.go
+++ b/vtdxml/parser/vtd_parser.go
@@ -110,6 +110,7 @@ func NewVtdParser(opts ...Option) (*VtdParser, error) {
 		lcDepth:               DefaultLcDepth,
 		bufferReuse:           DefaultBufferReuse,
 		increment:             DefaultIncrement,
+		encoding:              common.FormatUtf8,
 		tagStack:              make([]int64, DefaultTagArraySize, DefaultTagArraySize),
 		attrNameSlice:         make([]int, DefaultAttrArraySize, DefaultAttrArraySize),
 		prefixedAttrNameSlice: make([]int64, DefaultAttrArraySize, DefaultAttrArraySize),
-- 
2.43.0


From e306af191d13b490244e38b59d215252a5b2a369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:05 +0000
Subject: [PATCH 09/32] fix: detect byte order marks

Unsigned bytes were compared with negative numbers, so no byte order mark was
ever recognised, documents shorter than four bytes panicked, and after a mark
the reader was left in front of it. UTF-16, for which there is no reader, is
reported as an encoding error.
---
 vtdxml/parser/common.go | 73 +++++++++++++++++++----------------------
 1 file changed, 34 insertions(+), 39 deletions(-)

diff --git a/vtdxml/parser/common.go b/vtdxml/parser/common.go
index 8814175..6c48da9 100644
--- a/vtdxml/parser/common.go
+++ b/vtdxml/parser/common.go
@@ -344,51 +344,46 @@ func (p *VtdParser) getPrevOffset() (int, error) {
 }
 
 func (p *VtdParser) decideEncoding() error {
-	if int32(p.xmlDoc[p.offset]) == -2 {
-		p.increment = 2
-		if int32(p.xmlDoc[p.offset+1]) == -1 {
-			p.offset += 2
-			p.encoding = common.FormatUtf16BE
-			p.bomDetected = true
-			// g.reader = reader.NewUtf16BeReader()
-		} else {
-			return erroring.NewEncodingError("should be 0xFF 0xFE")
+	// byteAt returns the byte at the index from the start of the document,
+	// or -1 if the document is shorter
+	byteAt := func(i int) int32 {
+		if p.offset+i >= p.endOffset {
+			return -1
 		}
-	} else if int32(p.xmlDoc[p.offset]) == -1 {
-		p.increment = 2
-		if int32(p.xmlDoc[p.offset+1]) == -2 {
-			p.offset += 2
-			p.encoding = common.FormatUtf16LE
+		return int32(p.xmlDoc[p.offset+i])
+	}
+
+	if byteAt(0) == 0xFE {
+		if byteAt(1) == 0xFF {
+			return erroring.NewEncodingError("UTF-16BE is not supported")
+		}
+		return erroring.NewEncodingError("should be 0xFF 0xFE")
+	} else if byteAt(0) == 0xFF {
+		if byteAt(1) == 0xFE {
+			return erroring.NewEncodingError("UTF-16LE is not supported")
+		}
+		return erroring.NewEncodingError("not UTF-16LE")
+	} else if byteAt(0) == 0 {
+		if byteAt(1) == 0x3c &&
+			byteAt(2) == 0 &&
+			byteAt(3) == 0x3f {
+			return erroring.NewEncodingError("UTF-16BE is not supported")
+		}
+		return erroring.NewEncodingError("not UTF-16BE")
+	} else if byteAt(0) == 0xEF {
+		if byteAt(1) == 0xBB &&
+			byteAt(2) == 0xBF {
+			p.setOffset(p.offset + 3)
 			p.bomDetected = true
-			// g.reader = reader.NewUtf16LeReader()
-		} else {
-			return erroring.NewEncodingError("not UTF-16LE")
-		}
-	} else if int32(p.xmlDoc[p.offset]) == 0 {
-		if int32(p.xmlDoc[p.offset+1]) == 0x3c &&
-			int32(p.xmlDoc[p.offset+2]) == 0 &&
-			int32(p.xmlDoc[p.offset+3]) == 0x3f {
-			p.encoding = common.FormatUtf16BE
-			p.increment = 2
-			// g.reader = reader.NewUtf16BeReader()
-		} else {
-			return erroring.NewEncodingError("not UTF-16BE")
-		}
-	} else if int32(p.xmlDoc[p.offset]) == -17 {
-		if int32(p.xmlDoc[p.offset+1]) == -69 &&
-			int32(p.xmlDoc[p.offset+2]) == -65 {
-			p.offset += 3
 			p.mustUtf8 = true
 		} else {
 			return erroring.NewEncodingError("not UTF-8")
 		}
-	} else if int32(p.xmlDoc[p.offset]) == 0x3c {
-		if int32(p.xmlDoc[p.offset+1]) == 0 &&
-			int32(p.xmlDoc[p.offset+2]) == 0x3f &&
-			int32(p.xmlDoc[p.offset+3]) == 0 {
-			p.encoding = common.FormatUtf16LE
-			p.increment = 2
-			// g.reader = reader.NewUtf16LeReader()
+	} else if byteAt(0) == 0x3c {
+		if byteAt(1) == 0 &&
+			byteAt(2) == 0x3f &&
+			byteAt(3) == 0 {
+			return erroring.NewEncodingError("UTF-16LE is not supported")
 		}
 		// no need to return error if failed the condition
 	}
-- 
2.43.0


From 79e62ba886e326c1011dd8f246d49b10ab243aac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:09 +0000
Subject: [PATCH 10/32] fix: parsing leaves standard output and the exported
 error values alone

---
 vtdxml/parser/parse.go | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/vtdxml/parser/parse.go b/vtdxml/parser/parse.go
index 69fd652..ed4e168 100644
--- a/vtdxml/parser/parse.go
+++ b/vtdxml/parser/parse.go
@@ -2,7 +2,6 @@ package parser
 
 import (
 	"errors"
-	"fmt"
 
 	"github.com/alexZaicev/go-vtd-xml/vtdxml/common"
 	"github.com/alexZaicev/go-vtd-xml/vtdxml/erroring"
@@ -23,11 +22,8 @@ func (p *VtdParser) Parse() error {
 
 	var ps State
 	var err error
+	var eofErr *erroring.EOFError
 	for {
-		fmt.Printf("Starting process state: %d\n", parserState)
-		fmt.Printf("Offset: %d LastOffset %d CurrentChar %d Length1 %d\n", p.offset, p.lastOffset, p.currentChar,
-			p.length1)
-
 		switch parserState {
 		case StateDocType:
 			ps, err = p.processDocType()
@@ -67,7 +63,7 @@ func (p *VtdParser) Parse() error {
 			)
 		}
 
-		if errors.As(err, &erroring.EOFErrorType) && parserState == StateDocEnd {
+		if errors.As(err, &eofErr) && parserState == StateDocEnd {
 			if err := p.finishUp(); err != nil {
 				return erroring.NewInternalError("failed to finish-up document parsing", err)
 			}
-- 
2.43.0


From 101ecf8d37a8121c4423e9e76a862a0ebe5388b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:12 +0000
Subject: [PATCH 11/32] fix: read again what only looked like an XML
 declaration or reserved target

The parser went back in the document but its reader did not, so elements
starting the document and instructions such as <?xml-stylesheet?> lost
characters. <?XML is a reserved target and not a declaration.
---
 vtdxml/parser/process_doc_start.go | 10 ++++------
 vtdxml/parser/process_lt_seen.go   |  1 +
 2 files changed, 5 insertions(+), 6 deletions(-)

diff --git a/vtdxml/parser/process_doc_start.go b/vtdxml/parser/process_doc_start.go
index 9d4787f..763868b 100644
--- a/vtdxml/parser/process_doc_start.go
+++ b/vtdxml/parser/process_doc_start.go
@@ -9,9 +9,7 @@ func (p *VtdParser) processDocStart() (State, error) {
 	if p.currentChar == '<' {
 		p.lastOffset = p.offset
 		if p.skipChar('?') &&
-			(p.skipChar('x') || p.skipChar('X')) &&
-			(p.skipChar('m') || p.skipChar('M')) &&
-			(p.skipChar('l') || p.skipChar('L')) {
+			p.skipCharSeq("xml") {
 			if p.skipChar(' ') ||
 				p.skipChar('\t') ||
 				p.skipChar('\n') ||
@@ -25,15 +23,15 @@ func (p *VtdParser) processDocStart() (State, error) {
 				return StateInvalid, erroring.NewParseError("premature ending", p.fmtLine(), nil)
 			}
 		}
-		p.offset = p.lastOffset
+		p.setOffset(p.lastOffset)
 		return StateLtSeen, nil
 	} else if p.currentChar == ' ' || p.currentChar == '\t' || p.currentChar == '\n' || p.currentChar == '\r' {
 		if err := p.nextCharAfterWs(); err != nil {
-			return StateInvalid, nil
+			return StateInvalid, err
 		}
 		if p.currentChar == '<' {
 			return StateLtSeen, nil
 		}
 	}
-	return StateInvalid, nil
+	return StateInvalid, erroring.NewParseError(erroring.InvalidChar, p.fmtLine(), nil)
 }
diff --git a/vtdxml/parser/process_lt_seen.go b/vtdxml/parser/process_lt_seen.go
index 10ce090..ee1bc3f 100644
--- a/vtdxml/parser/process_lt_seen.go
+++ b/vtdxml/parser/process_lt_seen.go
@@ -79,6 +79,7 @@ func (p *VtdParser) processQmSeen() (State, error) {
 			if err != nil {
 				return StateInvalid, err
 			}
+			p.reader.SetOffset(offset)
 			p.offset = offset
 		}
 		return StatePiTag, nil
-- 
2.43.0


From 1d26d589b69dbb72fe8652f6834570c82ead875a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:03 +0000
Subject: [PATCH 12/32] fix: require matching quotes and white space between
 the parts of the XML declaration

---
 vtdxml/parser/process_dec_attr_name.go | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/vtdxml/parser/process_dec_attr_name.go b/vtdxml/parser/process_dec_attr_name.go
index 8a4a66c..b147827 100644
--- a/vtdxml/parser/process_dec_attr_name.go
+++ b/vtdxml/parser/process_dec_attr_name.go
@@ -132,6 +132,7 @@ func (p *VtdParser) processDecEncodingAttr() error {
 		return erroring.NewParseError("invalid char to start attribute name", p.fmtLine(), nil)
 	}
 	p.lastOffset = p.offset
+	quote := p.currentChar
 	if err := p.nextChar(); err != nil {
 		return err
 	}
@@ -168,12 +169,19 @@ func (p *VtdParser) processDecEncodingAttr() error {
 	if err := p.nextChar(); err != nil {
 		return err
 	}
-	if p.currentChar != '\'' && p.currentChar != '"' {
-		return erroring.NewParseError("invalid char to start attribute name", p.fmtLine(), nil)
+	if p.currentChar != quote {
+		return erroring.NewParseError("encoding not terminated properly", p.fmtLine(), nil)
 	}
-	if err := p.nextCharAfterWs(); err != nil {
+	if err := p.nextChar(); err != nil {
 		return err
 	}
+	if p.xmlChar.IsSpaceChar(p.currentChar) {
+		if err := p.nextCharAfterWs(); err != nil {
+			return err
+		}
+	} else if p.currentChar != '?' {
+		return erroring.NewParseError(erroring.InvalidChar, p.fmtLine(), nil)
+	}
 	p.lastOffset = p.offset - p.increment
 	return nil
 }
@@ -201,6 +209,7 @@ func (p *VtdParser) processDecStandaloneAttr() error {
 	if p.currentChar != '\'' && p.currentChar != '"' {
 		return erroring.NewParseError("invalid char to start attribute name", p.fmtLine(), nil)
 	}
+	quote := p.currentChar
 	if p.skipCharSeq("yes") {
 		if p.singleByteEncoding {
 			if err := p.writeVtd(common.TokenDecAttrVal, p.lastOffset, 3, p.depth); err != nil {
@@ -228,8 +237,8 @@ func (p *VtdParser) processDecStandaloneAttr() error {
 	if err := p.nextChar(); err != nil {
 		return err
 	}
-	if p.currentChar != '\'' && p.currentChar != '"' {
-		return erroring.NewParseError("invalid char to start attribute name", p.fmtLine(), nil)
+	if p.currentChar != quote {
+		return erroring.NewParseError("standalone not terminated properly", p.fmtLine(), nil)
 	}
 	if err := p.nextCharAfterWs(); err != nil {
 		return err
-- 
2.43.0


From f1cbc5ee3df01e81df0c88467e937222e992362d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:07 +0000
Subject: [PATCH 13/32] fix: accept declared ASCII encodings, reject the
 unsupported Windows ones

The condition for switching to ASCII was inverted, so every document declaring
it was rejected. Windows code pages were accepted and read as UTF-8.
---
 vtdxml/parser/process_dec_attr_name.go | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/vtdxml/parser/process_dec_attr_name.go b/vtdxml/parser/process_dec_attr_name.go
index b147827..3477fbc 100644
--- a/vtdxml/parser/process_dec_attr_name.go
+++ b/vtdxml/parser/process_dec_attr_name.go
@@ -150,7 +150,7 @@ func (p *VtdParser) processDecEncodingAttr() error {
 			return err
 		}
 	case 'u', 'U':
-		if p.skipChar(uint32(usAscii[1])) {
+		if p.skipCharSeqIgnoreCase(usAscii[1:2]) {
 			if err := p.checkUsAsciiEncoding(); err != nil {
 				return err
 			}
@@ -247,10 +247,10 @@ func (p *VtdParser) processDecStandaloneAttr() error {
 }
 
 func (p *VtdParser) checkAsciiEncoding() error {
-	if !p.skipCharSeq(ascii[1:]) && !p.skipCharSeq(strings.ToUpper(ascii[1:])) {
+	if !p.skipCharSeqIgnoreCase(ascii[1:]) {
 		return erroring.NewParseError("invalid document encoding", p.fmtLine(), nil)
 	}
-	if p.encoding < common.FormatUtf16BE || p.encoding == common.FormatUtf16LE || p.mustUtf8 {
+	if p.encoding >= common.FormatUtf16BE || p.mustUtf8 {
 		return erroring.NewParseError("cannot switch document encoding to ASCII", p.fmtLine(), nil)
 	}
 	p.encoding = common.FormatAscii
@@ -266,10 +266,10 @@ func (p *VtdParser) checkAsciiEncoding() error {
 }
 
 func (p *VtdParser) checkUsAsciiEncoding() error {
-	if !p.skipCharSeq(usAscii[2:]) && !p.skipCharSeq(strings.ToUpper(usAscii[2:])) {
+	if !p.skipCharSeqIgnoreCase(usAscii[2:]) {
 		return erroring.NewParseError("invalid document encoding", p.fmtLine(), nil)
 	}
-	if p.encoding < common.FormatUtf16BE || p.encoding == common.FormatUtf16LE || p.mustUtf8 {
+	if p.encoding >= common.FormatUtf16BE || p.mustUtf8 {
 		return erroring.NewParseError("cannot switch document encoding to US-ASCII", p.fmtLine(), nil)
 	}
 	p.encoding = common.FormatAscii
@@ -460,9 +460,8 @@ func (p *VtdParser) setWinEncoding() error {
 	// 	}
 	// 	p.reader = &r
 	// } else {
-	// 	return erroring.NewParseError("invalid document encoding", p.fmtLine(), nil)
+	return erroring.NewParseError("invalid document encoding", p.fmtLine(), nil)
 	// }
-	return nil
 }
 
 func (p *VtdParser) setIsoEncoding() (int, error) {
-- 
2.43.0


From 5722825782e2d7ef2c854d5de8d5d15c7bedfa1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:38 +0000
Subject: [PATCH 14/32] fix: end tags outside any element are errors, text
 after one may start with a reference

---
 vtdxml/parser/process_end_tag.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/vtdxml/parser/process_end_tag.go b/vtdxml/parser/process_end_tag.go
index 56a539f..e9697b9 100644
--- a/vtdxml/parser/process_end_tag.go
+++ b/vtdxml/parser/process_end_tag.go
@@ -3,6 +3,9 @@ package parser
 import "github.com/alexZaicev/go-vtd-xml/vtdxml/erroring"
 
 func (p *VtdParser) processEndTag() (State, error) {
+	if p.depth < 0 {
+		return StateInvalid, erroring.NewParseError("end tag at the wrong place", p.fmtLine(), nil)
+	}
 	p.lastOffset = p.offset
 	sOffset := int(int32(p.tagStack[p.depth]))
 	sLength := int(int32(p.tagStack[p.depth] >> 32))
@@ -43,7 +46,7 @@ func (p *VtdParser) processEndTag() (State, error) {
 			if err := p.handleOtherTextChar(p.currentChar); err != nil {
 				return StateInvalid, err
 			}
-			return StateLtSeen, nil
+			return StateText, nil
 		}
 	}
 	return StateDocEnd, nil
-- 
2.43.0


From d192db3283579aefcff17ca97c4b5ca1fe319c59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:42 +0000
Subject: [PATCH 15/32] fix: accept comments and instructions without value
 after the root element

---
 vtdxml/parser/process_end_comment.go | 3 +++
 vtdxml/parser/process_pi_end.go      | 2 +-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/vtdxml/parser/process_end_comment.go b/vtdxml/parser/process_end_comment.go
index 84b2b20..769761d 100644
--- a/vtdxml/parser/process_end_comment.go
+++ b/vtdxml/parser/process_end_comment.go
@@ -18,6 +18,9 @@ func (p *VtdParser) processEndComment() (State, error) {
 			break
 		}
 	}
+	if err := p.nextChar(); err != nil {
+		return StateInvalid, err
+	}
 	if p.currentChar != '>' {
 		return StateInvalid, erroring.NewParseError("invalid terminating sequence, --> expected", p.fmtLine(), nil)
 	}
diff --git a/vtdxml/parser/process_pi_end.go b/vtdxml/parser/process_pi_end.go
index cd11eda..205be40 100644
--- a/vtdxml/parser/process_pi_end.go
+++ b/vtdxml/parser/process_pi_end.go
@@ -65,7 +65,7 @@ func (p *VtdParser) processPiEnd() (State, error) {
 				return StateInvalid, err
 			}
 		}
-		if p.currentChar != '?' || p.skipChar('>') {
+		if p.currentChar != '?' || !p.skipChar('>') {
 			return StateInvalid, erroring.NewParseError("invalid termination sequence", p.fmtLine(), nil)
 		}
 	}
-- 
2.43.0


From 1a0f388de6aaf9780cacdcd13d3067c0f2eebcee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:45 +0000
Subject: [PATCH 16/32] fix: only ]]> ends a CDATA section and is forbidden in
 text

---
 vtdxml/parser/common.go        | 4 +++-
 vtdxml/parser/process.go       | 7 ++-----
 vtdxml/parser/process_cdata.go | 2 +-
 3 files changed, 6 insertions(+), 7 deletions(-)

diff --git a/vtdxml/parser/common.go b/vtdxml/parser/common.go
index 6c48da9..a0d248b 100644
--- a/vtdxml/parser/common.go
+++ b/vtdxml/parser/common.go
@@ -552,9 +552,11 @@ func (p *VtdParser) handleOtherTextChar(ch uint32) error {
 	case ']':
 		{
 			// skip all ] chars
+			count := 1
 			for p.skipChar(']') {
+				count++
 			}
-			if p.skipChar('>') {
+			if count > 1 && p.skipChar('>') {
 				return erroring.NewParseError("]]> sequence in text content", p.fmtLine(), nil)
 			}
 			break
diff --git a/vtdxml/parser/process.go b/vtdxml/parser/process.go
index 6c72087..2031636 100644
--- a/vtdxml/parser/process.go
+++ b/vtdxml/parser/process.go
@@ -45,11 +45,8 @@ func (p *VtdParser) getNextProcessStateFromChar(ch uint32) (State, error) {
 		return StateText, nil
 	}
 	if ch == ']' {
-		// skip all ] chars
-		for p.skipChar(']') {
-		}
-		if p.skipChar('>') {
-			return StateInvalid, erroring.NewParseError("]]> sequence in text content", p.fmtLine(), nil)
+		if err := p.handleOtherTextChar(ch); err != nil {
+			return StateInvalid, err
 		}
 		return StateText, nil
 	}
diff --git a/vtdxml/parser/process_cdata.go b/vtdxml/parser/process_cdata.go
index 1d02149..55eccdb 100644
--- a/vtdxml/parser/process_cdata.go
+++ b/vtdxml/parser/process_cdata.go
@@ -13,7 +13,7 @@ func (p *VtdParser) processCdata() (State, error) {
 		if !p.xmlChar.IsValidChar(p.currentChar) {
 			return StateInvalid, erroring.NewParseError(erroring.InvalidChar, p.fmtLine(), nil)
 		}
-		if p.currentChar == ']' {
+		if p.currentChar == ']' && p.skipChar(']') {
 			// skip all ] chars
 			for p.skipChar(']') {
 			}
-- 
2.43.0


From bcba5a43683cb78499d5888675fcfbd835e19feb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:48 +0000
Subject: [PATCH 17/32] fix: accept a document type declaration in the prolog,
 and only there

The declaration was expected to read <!DDOCTYPE and rejected before the root
element but accepted inside elements; CDATA shared the inverted check.
---
 vtdxml/parser/process.go         |  4 ----
 vtdxml/parser/process_lt_seen.go | 17 +++++++++++++++--
 vtdxml/parser/vtd_parser.go      |  2 +-
 3 files changed, 16 insertions(+), 7 deletions(-)

diff --git a/vtdxml/parser/process.go b/vtdxml/parser/process.go
index 2031636..21e503a 100644
--- a/vtdxml/parser/process.go
+++ b/vtdxml/parser/process.go
@@ -18,10 +18,6 @@ func (p *VtdParser) validateSeq(seq string) error {
 				p.fmtLine(), nil)
 		}
 	}
-	if p.depth < 0 {
-		return erroring.NewParseError(fmt.Sprintf("wrong place for %s", seq),
-			p.fmtLine(), nil)
-	}
 	return nil
 }
 
diff --git a/vtdxml/parser/process_lt_seen.go b/vtdxml/parser/process_lt_seen.go
index ee1bc3f..2fe63c5 100644
--- a/vtdxml/parser/process_lt_seen.go
+++ b/vtdxml/parser/process_lt_seen.go
@@ -1,6 +1,10 @@
 package parser
 
-import "github.com/alexZaicev/go-vtd-xml/vtdxml/erroring"
+import (
+	"fmt"
+
+	"github.com/alexZaicev/go-vtd-xml/vtdxml/erroring"
+)
 
 func (p *VtdParser) processLtSeen() (State, error) {
 	p.lastOffset = p.offset
@@ -44,12 +48,21 @@ func (p *VtdParser) processExSeen() (State, error) {
 		if err := p.validateSeq(cdata); err != nil {
 			return StateInvalid, err
 		}
+		if p.depth < 0 {
+			return StateInvalid, erroring.NewParseError(fmt.Sprintf("wrong place for %s", cdata),
+				p.fmtLine(), nil)
+		}
 		p.lastOffset = p.offset
 		return StateCdata, nil
 	case 'D':
-		if err := p.validateSeq(docType); err != nil {
+		if err := p.validateSeq(docType[1:]); err != nil {
 			return StateInvalid, err
 		}
+		if p.depth >= 0 || p.docTypeSeen {
+			return StateInvalid, erroring.NewParseError(fmt.Sprintf("wrong place for %s", docType),
+				p.fmtLine(), nil)
+		}
+		p.docTypeSeen = true
 		p.lastOffset = p.offset
 		return StateDocType, nil
 	default:
diff --git a/vtdxml/parser/vtd_parser.go b/vtdxml/parser/vtd_parser.go
index aba8121..ce4c216 100644
--- a/vtdxml/parser/vtd_parser.go
+++ b/vtdxml/parser/vtd_parser.go
@@ -47,7 +47,7 @@ type VtdParser struct {
 	currentElementRecord                                                int64
 	nsAware, defaultNs, isNs                                            bool
 	singleByteEncoding, bomDetected, mustUtf8, shallowDepth, helper, ws bool
-	isXml                                                               bool
+	isXml, docTypeSeen                                                  bool
 	bufferReuse                                                         bool
 	encoding                                                            common.FormatEncoding
 	xmlChar                                                             *common.XmlChar
-- 
2.43.0


From 97a031915de53ad65be4a1d9944956ad1d6f1e8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:29 +0000
Subject: [PATCH 18/32] fix: markup inside DOCTYPE literals, comments and
 instructions does not end it

---
 vtdxml/parser/process_doc_type.go | 32 ++++++++++++++++++++++++++++++-
 1 file changed, 31 insertions(+), 1 deletion(-)

diff --git a/vtdxml/parser/process_doc_type.go b/vtdxml/parser/process_doc_type.go
index 596168d..3fbe6a4 100644
--- a/vtdxml/parser/process_doc_type.go
+++ b/vtdxml/parser/process_doc_type.go
@@ -17,8 +17,23 @@ func (p *VtdParser) processDocType() (State, error) {
 		}
 		if ch == '>' {
 			z--
+		} else if ch == '"' || ch == '\'' {
+			// literals may contain any markup
+			if err := p.skipDocTypeUntil(string(rune(ch))); err != nil {
+				return StateInvalid, err
+			}
 		} else if ch == '<' {
-			z++
+			if p.skipCharSeq("!--") {
+				if err := p.skipDocTypeUntil("-->"); err != nil {
+					return StateInvalid, err
+				}
+			} else if p.skipChar('?') {
+				if err := p.skipDocTypeUntil("?>"); err != nil {
+					return StateInvalid, err
+				}
+			} else {
+				z++
+			}
 		}
 
 		if z == 0 {
@@ -38,3 +53,18 @@ func (p *VtdParser) processDocType() (State, error) {
 	}
 	return StateLtSeen, nil
 }
+
+// skipDocTypeUntil function skips the characters of a literal, comment or
+// instruction inside DOCTYPE up to and including its terminating sequence
+func (p *VtdParser) skipDocTypeUntil(seq string) error {
+	for !p.skipCharSeq(seq) {
+		ch, err := p.getChar()
+		if err != nil {
+			return err
+		}
+		if !p.xmlChar.IsValidChar(ch) {
+			return erroring.NewParseError("invalid char in DOCTYPE", p.fmtLine(), nil)
+		}
+	}
+	return nil
+}
-- 
2.43.0


From b079204128ddec36f7f353a60df476ea3d4182d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:06 +0000
Subject: [PATCH 19/32] fix: GetNav returns the navigation object of the parsed
 document

---
 vtdxml/parser/get_nav.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/vtdxml/parser/get_nav.go b/vtdxml/parser/get_nav.go
index e545f9a..d9f4829 100644
--- a/vtdxml/parser/get_nav.go
+++ b/vtdxml/parser/get_nav.go
@@ -1,9 +1,18 @@
 package parser
 
-import "github.com/alexZaicev/go-vtd-xml/vtdxml/navigation"
+import (
+	"github.com/alexZaicev/go-vtd-xml/vtdxml/erroring"
+	"github.com/alexZaicev/go-vtd-xml/vtdxml/navigation"
+)
 
 // GetNav function returns VTD navigation object after parsing
 func (p *VtdParser) GetNav() (*navigation.VtdNav, error) {
-	// TODO
-	return nil, nil
+	if p.rootIndex == 0 {
+		return nil, erroring.NewInternalError("document has not been parsed", nil)
+	}
+	return navigation.NewVtdNav(
+		int32(p.rootIndex), int32(p.docOffset), int32(p.docLength), int32(p.vtdDepth),
+		p.encoding, p.nsAware, p.xmlDoc,
+		p.vtdBuffer, p.l1Buffer, p.l2Buffer, p.l3Buffer,
+	)
 }
-- 
2.43.0


From f2b870c78dd9a3494305ac270e6adb980a74c83c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:06 +0000
Subject: [PATCH 20/32] fix: record element records and the location cache

Prefix lengths were shifted by one bit and merged into the name length, the
three level location cache and the root index were never written, and the
marker for elements without children was not the one navigation looks for.
---
 vtdxml/parser/common.go            | 63 +++++++++++++++++++++++++-----
 vtdxml/parser/parse.go             | 12 +++---
 vtdxml/parser/process_start_tag.go |  6 +--
 3 files changed, 62 insertions(+), 19 deletions(-)

diff --git a/vtdxml/parser/common.go b/vtdxml/parser/common.go
index a0d248b..45c4617 100644
--- a/vtdxml/parser/common.go
+++ b/vtdxml/parser/common.go
@@ -146,19 +146,19 @@ func (p *VtdParser) writeVtdL5(tokenType common.Token, offset, length, depth int
 	case 1:
 		{
 			if p.lastDepth == 1 {
-				if err := p.l1Buffer.Append(int64((p.lastL1Index << 32) | 0xFFFF)); err != nil {
+				if err := p.l1Buffer.Append(int64((p.lastL1Index << 32) | 0xFFFFFFFF)); err != nil {
 					return err
 				}
 			} else if p.lastDepth == 2 {
-				if err := p.l2Buffer.Append(int64((p.lastL2Index << 32) | 0xFFFF)); err != nil {
+				if err := p.l2Buffer.Append(int64((p.lastL2Index << 32) | 0xFFFFFFFF)); err != nil {
 					return err
 				}
 			} else if p.lastDepth == 3 {
-				if err := p.l3Buffer.Append(int64((p.lastL3Index << 32) | 0xFFFF)); err != nil {
+				if err := p.l3Buffer.Append(int64((p.lastL3Index << 32) | 0xFFFFFFFF)); err != nil {
 					return err
 				}
 			} else if p.lastDepth == 4 {
-				if err := p.l4Buffer.Append(int64((p.lastL4Index << 32) | 0xFFFF)); err != nil {
+				if err := p.l4Buffer.Append(int64((p.lastL4Index << 32) | 0xFFFFFFFF)); err != nil {
 					return err
 				}
 			}
@@ -173,15 +173,15 @@ func (p *VtdParser) writeVtdL5(tokenType common.Token, offset, length, depth int
 					return err
 				}
 			} else if p.lastDepth == 2 {
-				if err := p.l2Buffer.Append(int64((p.lastL2Index << 32) | 0xFFFF)); err != nil {
+				if err := p.l2Buffer.Append(int64((p.lastL2Index << 32) | 0xFFFFFFFF)); err != nil {
 					return err
 				}
 			} else if p.lastDepth == 3 {
-				if err := p.l3Buffer.Append(int64((p.lastL3Index << 32) | 0xFFFF)); err != nil {
+				if err := p.l3Buffer.Append(int64((p.lastL3Index << 32) | 0xFFFFFFFF)); err != nil {
 					return err
 				}
 			} else if p.lastDepth == 4 {
-				if err := p.l4Buffer.Append(int64((p.lastL4Index << 32) | 0xFFFF)); err != nil {
+				if err := p.l4Buffer.Append(int64((p.lastL4Index << 32) | 0xFFFFFFFF)); err != nil {
 					return err
 				}
 			}
@@ -196,11 +196,11 @@ func (p *VtdParser) writeVtdL5(tokenType common.Token, offset, length, depth int
 					return err
 				}
 			} else if p.lastDepth == 3 {
-				if err := p.l3Buffer.Append(int64((p.lastL3Index << 32) | 0xFFFF)); err != nil {
+				if err := p.l3Buffer.Append(int64((p.lastL3Index << 32) | 0xFFFFFFFF)); err != nil {
 					return err
 				}
 			} else if p.lastDepth == 4 {
-				if err := p.l4Buffer.Append(int64((p.lastL4Index << 32) | 0xFFFF)); err != nil {
+				if err := p.l4Buffer.Append(int64((p.lastL4Index << 32) | 0xFFFFFFFF)); err != nil {
 					return err
 				}
 			}
@@ -215,7 +215,7 @@ func (p *VtdParser) writeVtdL5(tokenType common.Token, offset, length, depth int
 					return err
 				}
 			} else if p.lastDepth == 4 {
-				if err := p.l4Buffer.Append(int64((p.lastL4Index << 32) | 0xFFFF)); err != nil {
+				if err := p.l4Buffer.Append(int64((p.lastL4Index << 32) | 0xFFFFFFFF)); err != nil {
 					return err
 				}
 			}
@@ -240,6 +240,49 @@ func (p *VtdParser) writeVtdL5(tokenType common.Token, offset, length, depth int
 	return nil
 }
 
+// writeVtdL3 function writes into VTD buffer and the three level location cache
+func (p *VtdParser) writeVtdL3(tokenType common.Token, offset, length, depth int) error {
+	if err := p.writeVtd(tokenType, offset, length, depth); err != nil {
+		return err
+	}
+	index := p.vtdBuffer.GetSize() - 1
+	switch depth {
+	case 0:
+		p.rootIndex = index
+	case 1, 2:
+		if p.lastDepth == 1 {
+			lower := 0xFFFFFFFF
+			if depth == 2 {
+				lower = p.l2Buffer.GetSize()
+			}
+			if err := p.l1Buffer.Append(int64((p.lastL1Index << 32) | lower)); err != nil {
+				return err
+			}
+		} else if p.lastDepth == 2 {
+			if err := p.l2Buffer.Append(int64((p.lastL2Index << 32) | 0xFFFFFFFF)); err != nil {
+				return err
+			}
+		}
+		if depth == 1 {
+			p.lastL1Index = index
+		} else {
+			p.lastL2Index = index
+		}
+		p.lastDepth = depth
+	case 3:
+		if p.lastDepth == 2 {
+			if err := p.l2Buffer.Append(int64((p.lastL2Index << 32) | p.l3Buffer.GetSize())); err != nil {
+				return err
+			}
+		}
+		if err := p.l3Buffer.Append(int64((index << 32) | 0xFFFFFFFF)); err != nil {
+			return err
+		}
+		p.lastDepth = 3
+	}
+	return nil
+}
+
 // writeVtdText function writes token text into VTD buffer
 func (p *VtdParser) writeVtdText(tokenType common.Token, offset, length, depth int) error {
 	if length > maxTokenLength {
diff --git a/vtdxml/parser/parse.go b/vtdxml/parser/parse.go
index ed4e168..d9d8b1c 100644
--- a/vtdxml/parser/parse.go
+++ b/vtdxml/parser/parse.go
@@ -81,19 +81,19 @@ func (p *VtdParser) finishUp() error {
 	var err error
 	if p.shallowDepth {
 		if p.lastDepth == 1 {
-			err = p.l1Buffer.Append(int64((p.lastL1Index << 32) | 0xFFFF))
+			err = p.l1Buffer.Append(int64((p.lastL1Index << 32) | 0xFFFFFFFF))
 		} else if p.lastDepth == 2 {
-			err = p.l2Buffer.Append(int64((p.lastL2Index << 32) | 0xFFFF))
+			err = p.l2Buffer.Append(int64((p.lastL2Index << 32) | 0xFFFFFFFF))
 		}
 	} else {
 		if p.lastDepth == 1 {
-			err = p.l1Buffer.Append(int64((p.lastL1Index << 32) | 0xFFFF))
+			err = p.l1Buffer.Append(int64((p.lastL1Index << 32) | 0xFFFFFFFF))
 		} else if p.lastDepth == 2 {
-			err = p.l2Buffer.Append(int64((p.lastL2Index << 32) | 0xFFFF))
+			err = p.l2Buffer.Append(int64((p.lastL2Index << 32) | 0xFFFFFFFF))
 		} else if p.lastDepth == 3 {
-			err = p.l3Buffer.Append(int64((p.lastL3Index << 32) | 0xFFFF))
+			err = p.l3Buffer.Append(int64((p.lastL3Index << 32) | 0xFFFFFFFF))
 		} else if p.lastDepth == 4 {
-			err = p.l4Buffer.Append(int64((p.lastL4Index << 32) | 0xFFFF))
+			err = p.l4Buffer.Append(int64((p.lastL4Index << 32) | 0xFFFFFFFF))
 		}
 	}
 	return err
diff --git a/vtdxml/parser/process_start_tag.go b/vtdxml/parser/process_start_tag.go
index 9bac2be..29e4ab1 100644
--- a/vtdxml/parser/process_start_tag.go
+++ b/vtdxml/parser/process_start_tag.go
@@ -38,11 +38,11 @@ func (p *VtdParser) processStartTag() (State, error) {
 			return StateInvalid, erroring.NewParseError(erroring.TagPrefixQnameTooLong, p.fmtLine(), nil)
 		}
 		if p.shallowDepth {
-			if err := p.writeVtd(common.TokenStartingTag, p.lastOffset, (p.length2<<1)|p.length1, p.depth); err != nil {
+			if err := p.writeVtdL3(common.TokenStartingTag, p.lastOffset, (p.length2<<11)|p.length1, p.depth); err != nil {
 				return StateInvalid, err
 			}
 		} else {
-			if err := p.writeVtdL5(common.TokenStartingTag, p.lastOffset, (p.length2<<1)|p.length1, p.depth); err != nil {
+			if err := p.writeVtdL5(common.TokenStartingTag, p.lastOffset, (p.length2<<11)|p.length1, p.depth); err != nil {
 				return StateInvalid, err
 			}
 		}
@@ -51,7 +51,7 @@ func (p *VtdParser) processStartTag() (State, error) {
 			return StateInvalid, erroring.NewParseError(erroring.TagPrefixQnameTooLong, p.fmtLine(), nil)
 		}
 		if p.shallowDepth {
-			if err := p.writeVtd(common.TokenStartingTag, p.lastOffset>>1, (p.length2<<10)|(p.length1>>1),
+			if err := p.writeVtdL3(common.TokenStartingTag, p.lastOffset>>1, (p.length2<<10)|(p.length1>>1),
 				p.depth); err != nil {
 				return StateInvalid, err
 			}
-- 
2.43.0


From 345b8e43000886091cfb99542956e8c802e4801e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:09 +0000
Subject: [PATCH 21/32] fix: records of long text start at the text and not at
 offset 0

---
 vtdxml/parser/common.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/vtdxml/parser/common.go b/vtdxml/parser/common.go
index 45c4617..9422237 100644
--- a/vtdxml/parser/common.go
+++ b/vtdxml/parser/common.go
@@ -286,7 +286,8 @@ func (p *VtdParser) writeVtdL3(tokenType common.Token, offset, length, depth int
 // writeVtdText function writes token text into VTD buffer
 func (p *VtdParser) writeVtdText(tokenType common.Token, offset, length, depth int) error {
 	if length > maxTokenLength {
-		var j, rOffset int
+		var j int
+		rOffset := offset
 		for j = length; j > maxTokenLength; j -= maxTokenLength {
 			if err := p.writeVtd(tokenType, rOffset, maxTokenLength, depth); err != nil {
 				return err
-- 
2.43.0


From 5e03969eb57ccfbbeba567d9c031f58ad5c2fead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:46 +0000
Subject: [PATCH 22/32] fix: any number of attributes, exact xml and xmlns
 prefix checks

Element prefixes of 8 or 10 bytes starting with xml or xmlns were taken for
the reserved ones, the prefix length was cut to 12 bits, more than 256
attributes panicked and namespace indexes of earlier elements were kept.
---
 vtdxml/parser/common.go            | 6 +++---
 vtdxml/parser/process_attr_name.go | 5 +++--
 vtdxml/parser/process_attr_val.go  | 1 +
 3 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/vtdxml/parser/common.go b/vtdxml/parser/common.go
index 9422237..00b1ad7 100644
--- a/vtdxml/parser/common.go
+++ b/vtdxml/parser/common.go
@@ -480,7 +480,7 @@ func (p *VtdParser) checkXmlPrefix(offset, length int, checkLength bool) bool {
 	}
 
 	if valid && checkLength {
-		valid = (p.encoding < common.FormatUtf16BE && length == 4) || length == 8
+		valid = (p.singleByteEncoding && length == 4) || (!p.singleByteEncoding && length == 8)
 	}
 	return valid
 }
@@ -521,7 +521,7 @@ func (p *VtdParser) checkXmlnsPrefix(offset, length int, checkLength bool) bool
 	}
 
 	if valid && checkLength {
-		valid = (p.encoding < common.FormatUtf16BE && length == 5) || length == 10
+		valid = (p.singleByteEncoding && length == 5) || (!p.singleByteEncoding && length == 10)
 	}
 	return valid
 }
@@ -531,7 +531,7 @@ func (p *VtdParser) checkXmlnsPrefix(offset, length int, checkLength bool) bool
 // (1) current element has no prefix, then look for XMLNS;
 // (2) current element has prefix, then look for XMLNS:<SOMETHING>
 func (p *VtdParser) qualifyElement() error {
-	preLen := int(int32((p.currentElementRecord & 0xFFFF00000000000) >> 48))
+	preLen := int((p.currentElementRecord >> 48) & 0xFFFF)
 	preOs := int(int32(p.currentElementRecord))
 	for i := p.nsBuffer3.GetSize() - 1; i >= 0; i-- {
 		upVal, err := p.nsBuffer3.Upper32At(i)
diff --git a/vtdxml/parser/process_attr_name.go b/vtdxml/parser/process_attr_name.go
index d6dc1d8..608342c 100644
--- a/vtdxml/parser/process_attr_name.go
+++ b/vtdxml/parser/process_attr_name.go
@@ -129,14 +129,15 @@ func (p *VtdParser) checkAttrUniqueness() error {
 	if !unique && p.attrCount != 0 {
 		return erroring.NewParseError(erroring.AttrNotUnique, p.fmtLine(), nil)
 	}
-	p.attrNameSlice[p.attrCount] = (p.lastOffset << 32) | p.length1
+	p.attrNameSlice = append(p.attrNameSlice[:p.attrCount], (p.lastOffset<<32)|p.length1)
 	p.attrCount++
 	if p.nsAware && !p.isNs && p.length2 != 0 {
 		isXml := p.checkXmlPrefix(p.lastOffset, -1, false)
 		if (p.increment == 1 && p.length2 == 3 && isXml) || (p.increment == 2 && p.length2 == 6 && isXml) {
 			return nil
 		}
-		p.prefixedAttrNameSlice[p.prefixedAttCount] = int64((p.lastOffset << 32) | (p.length2 << 16) | p.length1)
+		p.prefixedAttrNameSlice = append(p.prefixedAttrNameSlice[:p.prefixedAttCount],
+			int64((p.lastOffset<<32)|(p.length2<<16)|p.length1))
 		p.prefixedAttCount++
 	}
 	return nil
diff --git a/vtdxml/parser/process_attr_val.go b/vtdxml/parser/process_attr_val.go
index ed48a7a..2f48fa7 100644
--- a/vtdxml/parser/process_attr_val.go
+++ b/vtdxml/parser/process_attr_val.go
@@ -192,6 +192,7 @@ func (p *VtdParser) identifyNsUrl() (NsUrlType, error) {
 
 func (p *VtdParser) qualifyAttributes() error {
 	nsBuffer3Count := p.nsBuffer3.GetSize() - 1
+	p.prefixUrlSlice = p.prefixUrlSlice[:0]
 	for j := 0; j < p.prefixedAttCount; j++ {
 		preLen := int(int32((p.prefixedAttrNameSlice[j] & 0xFFFF0000) >> 16))
 		preOs := int(int32(p.prefixedAttrNameSlice[j] >> 32))
-- 
2.43.0


From 9b05064d43a2fc910c64ef984be73311f587a321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:18 +0000
Subject: [PATCH 23/32] fix: compare namespace names by their resolved
 characters

The comparison included the byte counts packed into the upper half, the
XML and xmlns namespace names were mixed up, the resolver read from the
current position instead of the reference, and matching never ended.
---
 vtdxml/parser/process_attr_val.go | 55 ++++++++++++++++---------------
 1 file changed, 29 insertions(+), 26 deletions(-)

diff --git a/vtdxml/parser/process_attr_val.go b/vtdxml/parser/process_attr_val.go
index 2f48fa7..48c1d66 100644
--- a/vtdxml/parser/process_attr_val.go
+++ b/vtdxml/parser/process_attr_val.go
@@ -54,12 +54,14 @@ func (p *VtdParser) processAttrVal() (State, error) {
 		if err != nil {
 			return StateInvalid, err
 		}
-		if p.isXml && nsUrlType != NsUrl2000 {
-			return StateInvalid, erroring.NewParseError(
-				fmt.Sprintf("xmlns:xml cant only point to %s", XMLNS1998),
-				p.fmtLine(),
-				nil,
-			)
+		if p.isXml {
+			if nsUrlType != NsUrl1998 {
+				return StateInvalid, erroring.NewParseError(
+					fmt.Sprintf("xmlns:xml cant only point to %s", XMLNS1998),
+					p.fmtLine(),
+					nil,
+				)
+			}
 		} else {
 			if !p.defaultNs {
 				if err := p.nsBuffer2.Append(int64(p.lastOffset<<32 | p.length1)); err != nil {
@@ -154,38 +156,39 @@ func (p *VtdParser) identifyNsUrl() (NsUrlType, error) {
 		if err != nil {
 			return InvalidNsUrl, err
 		}
-		if int64(URL2[i]) != ch {
+		if int32(URL2[i]) != int32(ch) {
 			return DefaultNsUrl, nil
 		}
-		offset += int(ch) >> 32
+		offset += int(ch >> 32)
 	}
 	tmpOffset = offset
-	for i := 0; i < 11 && offset < g; i++ {
+	var i int
+	for i = 0; i < 11 && offset < g; i++ {
 		ch, err := p.getCharResolved(offset)
 		if err != nil {
 			return InvalidNsUrl, err
 		}
-		if int64(URL1[i]) != ch {
-			return DefaultNsUrl, nil
+		if int32(URL1[i]) != int32(ch) {
+			break
 		}
-		offset += int(ch) >> 32
+		offset += int(ch >> 32)
 	}
-	if offset == g {
-		return NsUrl1998, nil
+	if i == 11 && offset == g {
+		return NsUrl2000, nil
 	}
 	offset = tmpOffset
-	for i := 18; i < 36 && offset < g; i++ {
+	for i = 18; i < 36 && offset < g; i++ {
 		ch, err := p.getCharResolved(offset)
 		if err != nil {
 			return InvalidNsUrl, err
 		}
-		if int64(URL2[i]) != ch {
+		if int32(URL2[i]) != int32(ch) {
 			return DefaultNsUrl, nil
 		}
-		offset += int(ch) >> 32
+		offset += int(ch >> 32)
 	}
-	if offset == g {
-		return NsUrl2000, nil
+	if i == 36 && offset == g {
+		return NsUrl1998, nil
 	}
 	return DefaultNsUrl, nil
 }
@@ -366,10 +369,11 @@ func (p *VtdParser) getCharResolved(offset int) (int64, error) {
 		}
 	case 'a':
 		{
-			ch2, err := p.getChar()
+			ch2, err := p.getCharUnit(offset)
 			if err != nil {
 				return 0, err
 			}
+			offset += p.increment
 			if p.encoding < common.FormatUtf16BE {
 				if ch2 == 'm' {
 					// checks that the sequence matcher &amp;
@@ -383,7 +387,7 @@ func (p *VtdParser) getCharResolved(offset int) (int64, error) {
 					if err := checkSeq("os;", offset, 1); err != nil {
 						return 0, err
 					}
-					inc = 5
+					inc = 6
 					val = '\''
 				}
 			} else {
@@ -462,8 +466,8 @@ func (p *VtdParser) getCharUnit(offset int) (int32, error) {
 }
 
 func (p *VtdParser) matchUrl(a, b Url) (bool, error) {
-	for a.offset < a.offset+a.length &&
-		b.offset < b.offset+b.length {
+	endA, endB := a.offset+a.length, b.offset+b.length
+	for a.offset < endA && b.offset < endB {
 		chA, err := p.getCharResolved(a.offset)
 		if err != nil {
 			return false, err
@@ -472,14 +476,13 @@ func (p *VtdParser) matchUrl(a, b Url) (bool, error) {
 		if err != nil {
 			return false, err
 		}
-		if chA != chB {
+		if int32(chA) != int32(chB) {
 			return false, err
 		}
 		a.offset += int(chA >> 32)
 		b.offset += int(chB >> 32)
 	}
-	if a.offset == a.offset+a.length &&
-		b.offset == b.offset+b.length {
+	if a.offset == endA && b.offset == endB {
 		return true, nil
 	}
 	return false, nil
-- 
2.43.0


From a2ad6c558fc650a24245ad2f36b574646209e122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:21 +0000
Subject: [PATCH 24/32] fix: character references with many digits do not wrap
 around

---
 vtdxml/parser/common.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/vtdxml/parser/common.go b/vtdxml/parser/common.go
index 00b1ad7..2918d94 100644
--- a/vtdxml/parser/common.go
+++ b/vtdxml/parser/common.go
@@ -3,6 +3,7 @@ package parser
 import (
 	"fmt"
 	"strings"
+	"unicode"
 
 	"github.com/alexZaicev/go-vtd-xml/vtdxml/common"
 	"github.com/alexZaicev/go-vtd-xml/vtdxml/erroring"
@@ -658,6 +659,9 @@ func (p *VtdParser) entityIdentifier() (uint32, error) {
 					} else {
 						return 0, erroring.NewEntityError("illegal char following &#x")
 					}
+					if value > unicode.MaxRune {
+						return 0, erroring.NewEntityError(erroring.InvalidChar)
+					}
 				}
 			} else {
 				for {
@@ -668,6 +672,9 @@ func (p *VtdParser) entityIdentifier() (uint32, error) {
 					} else {
 						return 0, erroring.NewEntityError("illegal char following &#x")
 					}
+					if value > unicode.MaxRune {
+						return 0, erroring.NewEntityError(erroring.InvalidChar)
+					}
 					ch, err = p.getChar()
 					if err != nil {
 						return 0, err
-- 
2.43.0


From 9ef53da4ccb94a35d97b4785519757c1ac6f4842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:24 +0000
Subject: [PATCH 25/32] fix: a line feed is reported on the line it ends

---
 vtdxml/parser/common.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/vtdxml/parser/common.go b/vtdxml/parser/common.go
index 2918d94..15030a4 100644
--- a/vtdxml/parser/common.go
+++ b/vtdxml/parser/common.go
@@ -323,7 +323,8 @@ func (p *VtdParser) writeVtdWithLengthCheck(tokenType common.Token, errMsg strin
 // fmtLine function format error message with current line number and
 // character offset
 func (p *VtdParser) fmtLine() string {
-	return p.fmtCustomLine(p.offset)
+	// the character the error is about has been read already
+	return p.fmtCustomLine(p.offset - p.increment)
 }
 
 // fmtLine function format error message with custom line number and
-- 
2.43.0


From b970cd7e58db8fbcedf99e1ebeb5358cafb828e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:24 +0000
Subject: [PATCH 26/32] fix: reject windows with negative or overflowing length

---
 vtdxml/parser/vtd_parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vtdxml/parser/vtd_parser.go b/vtdxml/parser/vtd_parser.go
index ce4c216..88ed334 100644
--- a/vtdxml/parser/vtd_parser.go
+++ b/vtdxml/parser/vtd_parser.go
@@ -130,7 +130,7 @@ func NewVtdParser(opts ...Option) (*VtdParser, error) {
 	if g.offset < 0 {
 		return nil, erroring.NewInvalidArgumentError("offset", erroring.IndexOutOfRange, nil)
 	}
-	if g.length == 0 || g.offset+g.length > len(g.xmlDoc) {
+	if g.length <= 0 || g.length > len(g.xmlDoc)-g.offset {
 		return nil, erroring.NewInvalidArgumentError("length", erroring.InvalidSliceLength, nil)
 	}
 	// perform additional initialization
-- 
2.43.0


From fb078f67b90edd549827b2e0862737f06a3754c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:02 +0000
Subject: [PATCH 27/32] fix: element moves follow the location cache of their
 level

Moves on the second and third level read the entries of another level, the
context had no room for the deepest elements, and below the third level no
next sibling was ever found.
---
 vtdxml/navigation/to_element.go | 8 ++++----
 vtdxml/navigation/vtd_nav.go    | 4 ++--
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/vtdxml/navigation/to_element.go b/vtdxml/navigation/to_element.go
index ee81b84..e1bded5 100644
--- a/vtdxml/navigation/to_element.go
+++ b/vtdxml/navigation/to_element.go
@@ -134,7 +134,7 @@ func (n *VtdNav) toChildElement(dir Direction) (bool, error) {
 			} else {
 				n.l3index = int(n.l3upper)
 			}
-			upper, err := n.l2Buffer.Upper32At(n.l2index)
+			upper, err := n.l3Buffer.Upper32At(n.l3index)
 			if err != nil {
 				return false, nil
 			}
@@ -245,7 +245,7 @@ func (n *VtdNav) toSiblingElement(dir Direction) (bool, error) {
 				}
 				n.l2index--
 			}
-			upper, err := n.l1Buffer.Upper32At(n.l1index)
+			upper, err := n.l2Buffer.Upper32At(n.l2index)
 			if err != nil {
 				return false, err
 			}
@@ -265,7 +265,7 @@ func (n *VtdNav) toSiblingElement(dir Direction) (bool, error) {
 				}
 				n.l3index--
 			}
-			upper, err := n.l1Buffer.Upper32At(n.l1index)
+			upper, err := n.l3Buffer.Upper32At(n.l3index)
 			if err != nil {
 				return false, err
 			}
@@ -295,7 +295,7 @@ func (n *VtdNav) toNextSibling() (bool, error) {
 			return false, err
 		}
 		if common.Token(tokenType) == common.TokenStartingTag {
-			if depth <= n.context[0] {
+			if depth < n.context[0] {
 				return false, nil
 			} else if depth == n.context[0] {
 				n.context[n.context[0]] = int32(index)
diff --git a/vtdxml/navigation/vtd_nav.go b/vtdxml/navigation/vtd_nav.go
index 9e06357..6525505 100644
--- a/vtdxml/navigation/vtd_nav.go
+++ b/vtdxml/navigation/vtd_nav.go
@@ -59,11 +59,11 @@ func NewVtdNav(
 		l1Buffer:  l1Buffer,
 		l2Buffer:  l2Buffer,
 		l3Buffer:  l3Buffer,
-		context:   make([]int32, 0, depth),
+		context:   make([]int32, 0, depth+1),
 		xmlChar:   common.NewXmlChar(),
 	}
 
-	for i := 0; i < int(depth); i++ {
+	for i := 0; i <= int(depth); i++ {
 		n.context = append(n.context, -1)
 	}
 
-- 
2.43.0


From c305f02072efda812187964aecf675e698532d66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:03 +0000
Subject: [PATCH 28/32] fix: length of long text adds up exactly the records of
 its run

---
 vtdxml/navigation/common.go | 33 ++++++++++++++++++++-------------
 1 file changed, 20 insertions(+), 13 deletions(-)

diff --git a/vtdxml/navigation/common.go b/vtdxml/navigation/common.go
index e079b6e..f07ad78 100644
--- a/vtdxml/navigation/common.go
+++ b/vtdxml/navigation/common.go
@@ -91,27 +91,34 @@ func (n *VtdNav) GetTokenLength(index int) (int32, error) {
 			if caseErr != nil {
 				return 0, caseErr
 			}
-			var offset int32
-			var tokenTypeNew, tokenOffsetNew, tokenDepthNew int32
-			tokenDepthNew = depth
-			tokenTypeNew = tokenType
-
-			for i := index; i < n.vtdBuffer.GetSize() &&
-				depth == tokenDepthNew &&
-				tokenType == tokenTypeNew &&
-				offset == tokenOffsetNew; i++ {
+			offset, caseErr := n.GetTokenOffset(index)
+			if caseErr != nil {
+				return 0, caseErr
+			}
 
+			// add up the records of a run that is too long for one of them
+			for i := index; i < n.vtdBuffer.GetSize(); i++ {
 				val, forErr := n.vtdBuffer.LongAt(i)
 				if forErr != nil {
 					return 0, forErr
 				}
-				length += (uint64(val) & common.MaskTokenFullLength) >> 32
-
-				tokenOffsetNew, forErr = n.GetTokenOffset(i)
+				tokenTypeNew, forErr := n.GetTokenType(i)
+				if forErr != nil {
+					return 0, forErr
+				}
+				tokenDepthNew, forErr := n.GetTokenDepth(i)
 				if forErr != nil {
 					return 0, forErr
 				}
-				tokenOffsetNew = int32((uint64(val) & common.MaskTokenFullLength) >> 32)
+				tokenOffsetNew, forErr := n.GetTokenOffset(i)
+				if forErr != nil {
+					return 0, forErr
+				}
+				if depth != tokenDepthNew || tokenType != tokenTypeNew ||
+					int64(offset)+int64(length) != int64(tokenOffsetNew) {
+					break
+				}
+				length += (uint64(val) & common.MaskTokenFullLength) >> 32
 			}
 			return int32(length), nil
 		}
-- 
2.43.0


From 828d0762110b53f291266c6fc1482d5db6643911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:04 +0000
Subject: [PATCH 29/32] fix: strings resolve references

References were recognised but their name or digits stayed in the result,
decimal ones hung, &amp; and &apos; were rejected, characters outside ASCII
were cut to one byte and large numbers wrapped around.
---
 vtdxml/navigation/get_char_resolved.go | 33 ++++++++++++++++++--------
 vtdxml/navigation/to_string.go         | 12 ++++++++--
 2 files changed, 33 insertions(+), 12 deletions(-)

diff --git a/vtdxml/navigation/get_char_resolved.go b/vtdxml/navigation/get_char_resolved.go
index fa954b5..d881395 100644
--- a/vtdxml/navigation/get_char_resolved.go
+++ b/vtdxml/navigation/get_char_resolved.go
@@ -1,29 +1,33 @@
 package navigation
 
 import (
+	"unicode"
+
 	"github.com/alexZaicev/go-vtd-xml/vtdxml/common"
 	"github.com/alexZaicev/go-vtd-xml/vtdxml/erroring"
 )
 
-func (n *VtdNav) getCharResolved(offset int) (uint32, error) {
+// getCharResolved function returns the character at the offset with references
+// resolved and the number of bytes a reference occupies, 0 for other characters
+func (n *VtdNav) getCharResolved(offset int) (uint32, int, error) {
 	ch, err := n.getChar(offset)
 	if err != nil {
-		return 0, err
+		return 0, 0, err
 	}
-	if ch != '&' {
-		return uint32(ch), nil
+	if uint32(ch) != '&' {
+		return uint32(ch), 0, nil
 	}
 	offset++
 	ch2, err := n.getCharUnit(offset)
 	if err != nil {
-		return 0, err
+		return 0, 0, err
 	}
 	offset++
 	inc, val, err := n.resolveEntity(offset, ch2)
 	if err != nil {
-		return 0, err
+		return 0, 0, err
 	}
-	return val | uint32(inc<<32), nil
+	return val, int(inc), nil
 }
 
 func (n *VtdNav) resolveEntity(offset int, ch uint32) (uint64, uint32, error) {
@@ -68,6 +72,9 @@ func (n *VtdNav) resolveEntity(offset int, ch uint32) (uint64, uint32, error) {
 					} else {
 						return 0, 0, erroring.NewEntityError("illegal char following &#x")
 					}
+					if value > unicode.MaxRune {
+						return 0, 0, erroring.NewEntityError(erroring.InvalidChar)
+					}
 				}
 			} else {
 				for {
@@ -78,6 +85,11 @@ func (n *VtdNav) resolveEntity(offset int, ch uint32) (uint64, uint32, error) {
 					} else {
 						return 0, 0, erroring.NewEntityError("illegal char following &#x")
 					}
+					if value > unicode.MaxRune {
+						return 0, 0, erroring.NewEntityError(erroring.InvalidChar)
+					}
+					offset++
+					inc++
 					ch2, err = n.getCharUnit(offset)
 					if err != nil {
 						return 0, 0, err
@@ -87,7 +99,8 @@ func (n *VtdNav) resolveEntity(offset int, ch uint32) (uint64, uint32, error) {
 			if !n.xmlChar.IsValidChar(value) {
 				return 0, 0, erroring.NewEntityError(erroring.InvalidChar)
 			}
-			return inc, value, nil
+			// count the terminating semicolon
+			return inc + 1, value, nil
 		}
 	case 'a':
 		{
@@ -98,13 +111,13 @@ func (n *VtdNav) resolveEntity(offset int, ch uint32) (uint64, uint32, error) {
 			}
 			if ch2 == 'm' {
 				// checks that the sequence matcher &amp;
-				if err := checkSeq(offset, "p;"); err != nil {
+				if err := checkSeq(offset+1, "p;"); err != nil {
 					return 0, 0, err
 				}
 				return 5, '&', nil
 			} else if ch2 == 'p' {
 				// checks that the sequence matcher &apos;
-				if err := checkSeq(offset, "os;"); err != nil {
+				if err := checkSeq(offset+1, "os;"); err != nil {
 					return 0, 0, err
 				}
 				return 6, '\'', nil
diff --git a/vtdxml/navigation/to_string.go b/vtdxml/navigation/to_string.go
index 9bb5066..7ceb120 100644
--- a/vtdxml/navigation/to_string.go
+++ b/vtdxml/navigation/to_string.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 
 	"github.com/alexZaicev/go-vtd-xml/vtdxml/common"
+	"github.com/alexZaicev/go-vtd-xml/vtdxml/erroring"
 )
 
 func (n *VtdNav) ToStringAtIndex(index int) (string, error) {
@@ -31,11 +32,18 @@ func (n *VtdNav) ToStringAtRange(offset, length int32) (string, error) {
 
 	endOffset := offset + length
 	for i := offset; i < endOffset; i++ {
-		ch, err := n.getCharResolved(int(i))
+		ch, inc, err := n.getCharResolved(int(i))
 		if err != nil {
 			return "", err
 		}
-		buffer.WriteByte(byte(ch))
+		if inc == 0 {
+			buffer.WriteByte(byte(ch))
+			continue
+		}
+		if i += int32(inc) - 1; i >= endOffset {
+			return "", erroring.NewEntityError(erroring.IllegalBuiltInEntity)
+		}
+		buffer.WriteRune(rune(ch))
 	}
 
 	return buffer.String(), nil
-- 
2.43.0


From 0365c8f7500330e03c633b3f0830b6e9e7619656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:41 +0000
Subject: [PATCH 30/32] fix: reject string ranges outside the document and keep
 a trailing carriage return

ToStringAtRange and ToRawStringAtRange overflowed 32-bit offsets, accepted
negative lengths and read beyond the document window. A carriage return that
is the last byte of the document was converted to NUL.
---
 vtdxml/navigation/get_char_resolved.go | 15 +++------------
 vtdxml/navigation/to_string.go         | 18 +++++++++++++++++-
 2 files changed, 20 insertions(+), 13 deletions(-)

diff --git a/vtdxml/navigation/get_char_resolved.go b/vtdxml/navigation/get_char_resolved.go
index d881395..1d4039d 100644
--- a/vtdxml/navigation/get_char_resolved.go
+++ b/vtdxml/navigation/get_char_resolved.go
@@ -199,10 +199,7 @@ func (n *VtdNav) getChar(offset int) (uint64, error) {
 		{
 			if b == '\r' {
 				b2, ifErr := n.xmlBuffer.ByteAt(offset + 1)
-				if ifErr != nil {
-					return 0, nil
-				}
-				if b2 == '\n' {
+				if ifErr == nil && b2 == '\n' {
 					return uint64(int(b2) | (2 << 32)), nil
 				} else {
 					return uint64(int('\n') | (1 << 32)), nil
@@ -215,10 +212,7 @@ func (n *VtdNav) getChar(offset int) (uint64, error) {
 		{
 			if b == '\r' {
 				b2, ifErr := n.xmlBuffer.ByteAt(offset + 1)
-				if ifErr != nil {
-					return 0, nil
-				}
-				if b2 == '\n' {
+				if ifErr == nil && b2 == '\n' {
 					return uint64(int(b2) | (2 << 32)), nil
 				} else {
 					return uint64(int('\n') | (1 << 32)), nil
@@ -231,10 +225,7 @@ func (n *VtdNav) getChar(offset int) (uint64, error) {
 		{
 			if b == '\r' {
 				b2, ifErr := n.xmlBuffer.ByteAt(offset + 1)
-				if ifErr != nil {
-					return 0, nil
-				}
-				if b2 == '\n' {
+				if ifErr == nil && b2 == '\n' {
 					return uint64(int(b2) | (2 << 32)), nil
 				} else {
 					return uint64(int('\n') | (1 << 32)), nil
diff --git a/vtdxml/navigation/to_string.go b/vtdxml/navigation/to_string.go
index 7ceb120..7357fc0 100644
--- a/vtdxml/navigation/to_string.go
+++ b/vtdxml/navigation/to_string.go
@@ -28,6 +28,9 @@ func (n *VtdNav) ToStringAtIndex(index int) (string, error) {
 }
 
 func (n *VtdNav) ToStringAtRange(offset, length int32) (string, error) {
+	if err := n.checkRange(offset, length); err != nil {
+		return "", err
+	}
 	var buffer bytes.Buffer
 
 	endOffset := offset + length
@@ -40,9 +43,10 @@ func (n *VtdNav) ToStringAtRange(offset, length int32) (string, error) {
 			buffer.WriteByte(byte(ch))
 			continue
 		}
-		if i += int32(inc) - 1; i >= endOffset {
+		if inc > int(endOffset-i) {
 			return "", erroring.NewEntityError(erroring.IllegalBuiltInEntity)
 		}
+		i += int32(inc) - 1
 		buffer.WriteRune(rune(ch))
 	}
 
@@ -78,6 +82,9 @@ func (n *VtdNav) ToRawStringAtIndex(index int) (string, error) {
 }
 
 func (n *VtdNav) ToRawStringAtRange(offset, length int32) (string, error) {
+	if err := n.checkRange(offset, length); err != nil {
+		return "", err
+	}
 	var buffer bytes.Buffer
 
 	endOffset := offset + length
@@ -91,3 +98,12 @@ func (n *VtdNav) ToRawStringAtRange(offset, length int32) (string, error) {
 
 	return buffer.String(), nil
 }
+
+// checkRange function checks that the range does not leave the document
+func (n *VtdNav) checkRange(offset, length int32) error {
+	if offset < n.offset || length < 0 ||
+		int64(offset)+int64(length) > int64(n.offset)+int64(n.length) {
+		return erroring.NewInvalidArgumentError("index", erroring.IndexOutOfRange, nil)
+	}
+	return nil
+}
-- 
2.43.0


From bbcbe25d1ae02a54b2e913a87074def9c239f1be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:46 +0000
Subject: [PATCH 31/32] fix: the document token starts at the window

---
 vtdxml/parser/parse.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vtdxml/parser/parse.go b/vtdxml/parser/parse.go
index d9d8b1c..788d8a0 100644
--- a/vtdxml/parser/parse.go
+++ b/vtdxml/parser/parse.go
@@ -14,7 +14,7 @@ func (p *VtdParser) Parse() error {
 	if err := p.decideEncoding(); err != nil {
 		return err
 	}
-	if err := p.writeVtd(common.TokenDocument, 0, 0, p.depth); err != nil {
+	if err := p.writeVtd(common.TokenDocument, p.docOffset, 0, p.depth); err != nil {
 		return err
 	}
 
-- 
2.43.0


From 830feae463c79d1e0513f09270c39cdc87132a37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:00:51 +0000
Subject: [PATCH 32/32] fix: GetNav returns no navigation object after a failed
 parse

---
 vtdxml/parser/get_nav.go    | 2 +-
 vtdxml/parser/parse.go      | 1 +
 vtdxml/parser/vtd_parser.go | 2 +-
 3 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/vtdxml/parser/get_nav.go b/vtdxml/parser/get_nav.go
index d9f4829..fe52935 100644
--- a/vtdxml/parser/get_nav.go
+++ b/vtdxml/parser/get_nav.go
@@ -7,7 +7,7 @@ import (
 
 // GetNav function returns VTD navigation object after parsing
 func (p *VtdParser) GetNav() (*navigation.VtdNav, error) {
-	if p.rootIndex == 0 {
+	if !p.parsed {
 		return nil, erroring.NewInternalError("document has not been parsed", nil)
 	}
 	return navigation.NewVtdNav(
diff --git a/vtdxml/parser/parse.go b/vtdxml/parser/parse.go
index 788d8a0..a685293 100644
--- a/vtdxml/parser/parse.go
+++ b/vtdxml/parser/parse.go
@@ -67,6 +67,7 @@ func (p *VtdParser) Parse() error {
 			if err := p.finishUp(); err != nil {
 				return erroring.NewInternalError("failed to finish-up document parsing", err)
 			}
+			p.parsed = true
 			return nil
 		} else if err != nil {
 			return err
diff --git a/vtdxml/parser/vtd_parser.go b/vtdxml/parser/vtd_parser.go
index 88ed334..5c2bac5 100644
--- a/vtdxml/parser/vtd_parser.go
+++ b/vtdxml/parser/vtd_parser.go
@@ -47,7 +47,7 @@ type VtdParser struct {
 	currentElementRecord                                                int64
 	nsAware, defaultNs, isNs                                            bool
 	singleByteEncoding, bomDetected, mustUtf8, shallowDepth, helper, ws bool
-	isXml, docTypeSeen                                                  bool
+	isXml, docTypeSeen, parsed                                          bool
 	bufferReuse                                                         bool
 	encoding                                                            common.FormatEncoding
 	xmlChar                                                             *common.XmlChar
-- 
2.43.0

