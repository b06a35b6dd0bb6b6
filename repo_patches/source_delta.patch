From 262a910f5e05cfc207ec4bc9bcbcf99f6e1da0c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:59 +0000
Subject: [PATCH 01/63] fix: handlers derived from one parent overwrite each
 other's attributes

WithAttrs and WithGroup appended to slices whose spare capacity was shared
with the parent handler, so siblings wrote into the same array.
---
 handlers/flash/handler.go  | 13 +++++++++----
 handlers/sloggy/handler.go |  3 ++-
 2 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/handlers/flash/handler.go b/handlers/flash/handler.go
index 1f6a39b..cc5eaf9 100644
--- a/handlers/flash/handler.go
+++ b/handlers/flash/handler.go
@@ -6,6 +6,7 @@ import (
 	"fmt"
 	"io"
 	"log/slog"
+	"slices"
 	"sync"
 )
 
@@ -145,7 +146,9 @@ func (h *Handler) WithAttrs(attrs []slog.Attr) slog.Handler {
 	}
 	var prefixStarted bool
 	if len(h.prefix) > 0 {
-		hdlr.prefix = h.prefix
+		// Clip the slice so that appending copies the data instead of
+		// overwriting what another handler derived from h has appended.
+		hdlr.prefix = slices.Clip(h.prefix)
 		if !bytes.HasSuffix(hdlr.prefix, []byte{'{'}) {
 			prefixStarted = true
 		}
@@ -178,7 +181,7 @@ func (h *Handler) WithGroup(name string) slog.Handler {
 	if h.options.ReplaceAttr != nil {
 		// Only need this if there is a ReplaceAttr function.
 		// Even then, the function may not care, but we don't know that here.
-		groups = append(h.groups, name)
+		groups = append(slices.Clip(h.groups), name)
 	}
 	hdlr := &group{
 		Handler: &Handler{
@@ -193,7 +196,9 @@ func (h *Handler) WithGroup(name string) slog.Handler {
 	}
 	prefixStart := ""
 	if len(h.prefix) > 0 {
-		hdlr.prefix = h.prefix
+		// Clip the slice so that appending copies the data instead of
+		// overwriting what another handler derived from h has appended.
+		hdlr.prefix = slices.Clip(h.prefix)
 		if !bytes.HasSuffix(h.prefix, []byte{'{'}) {
 			prefixStart = ", "
 		}
@@ -208,7 +213,7 @@ func (h *Handler) WithGroup(name string) slog.Handler {
 	hdlr.prefix = append(hdlr.prefix, []byte(fmt.Sprintf("%s\"%s\": {", prefixStart, name))...)
 	// Should really be prepending the right brace into the suffix,
 	// but suffix only contains right braces, so it doesn't really matter.
-	hdlr.suffix = append(h.suffix, '}')
+	hdlr.suffix = append(slices.Clip(h.suffix), '}')
 	return hdlr
 }
 
diff --git a/handlers/sloggy/handler.go b/handlers/sloggy/handler.go
index 38be0e7..dcaf757 100644
--- a/handlers/sloggy/handler.go
+++ b/handlers/sloggy/handler.go
@@ -7,6 +7,7 @@ import (
 	"io"
 	"log/slog"
 	"runtime"
+	"slices"
 	"sync"
 )
 
@@ -144,7 +145,7 @@ func (h *Handler) WithGroup(name string) slog.Handler {
 			mutex:   h.mutex,
 			prefix:  bytes.Buffer{},
 			suffix:  bytes.Buffer{},
-			groups:  append(h.groups, name),
+			groups:  append(slices.Clip(h.groups), name),
 		},
 		name:   name,
 		parent: h,
-- 
2.43.0


From 762c1fffe9e8f4180296ab80986f423309dea0c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:10 +0000
Subject: [PATCH 02/63] fix: flash formats a LogValuer by the kind it had
 before it was resolved

---
 handlers/flash/composer.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/handlers/flash/composer.go b/handlers/flash/composer.go
index 94d4572..fb897b5 100644
--- a/handlers/flash/composer.go
+++ b/handlers/flash/composer.go
@@ -58,6 +58,7 @@ func (c *composer) addAttribute(attr slog.Attr) error {
 	kind := attr.Value.Kind()
 	if kind == slog.KindLogValuer {
 		attr.Value = attr.Value.Resolve()
+		kind = attr.Value.Kind()
 	}
 	if c.replace != nil {
 		var groups []string
-- 
2.43.0


From 11737b3f6088e3e168dde25fc2eea730fe7d4e89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:39 +0000
Subject: [PATCH 03/63] fix: flash lets invalid UTF-8 swallow the bytes and
 quote that follow it

---
 handlers/flash/composer.go | 42 ++++++++++----------------------------
 1 file changed, 11 insertions(+), 31 deletions(-)

diff --git a/handlers/flash/composer.go b/handlers/flash/composer.go
index fb897b5..73d2fbb 100644
--- a/handlers/flash/composer.go
+++ b/handlers/flash/composer.go
@@ -7,6 +7,7 @@ import (
 	"log/slog"
 	"strconv"
 	"time"
+	"unicode/utf8"
 
 	"github.com/madkins23/go-slog/infra"
 )
@@ -175,19 +176,11 @@ var hexDigit = `0123456789ABCDEF`
 func (c *composer) addEscaped(s []byte) {
 	var b byte
 	var begin, index int
-	uniByte := make([]byte, 0, 4)
 	uniMore := 0
 	for index, b = range s {
 		if uniMore > 0 {
-			uniByte = append(uniByte, b)
+			// Remainder of a valid UTF8 sequence, copied as is.
 			uniMore--
-			if uniMore < 1 {
-				// All unicode bytes collected in uniByte array.
-				// When they are all collected push them out.
-				c.buffer = append(c.buffer, uniByte...)
-				uniByte = uniByte[:0]
-				begin = index + 1
-			}
 			continue
 		}
 
@@ -231,27 +224,6 @@ func (c *composer) addEscaped(s []byte) {
 		default:
 			if b >= 32 && b < 127 {
 				// Just a normal lower ASCII character.
-			} else if b&0b11100000 == 0b11000000 {
-				// UTF8 two bytes
-				if index > begin {
-					c.buffer = append(c.buffer, s[begin:index]...)
-				}
-				uniByte = append(uniByte, b)
-				uniMore = 1
-			} else if b&0b11110000 == 0b11100000 {
-				// UTF8 three bytes
-				if index > begin {
-					c.buffer = append(c.buffer, s[begin:index]...)
-				}
-				uniByte = append(uniByte, b)
-				uniMore = 2
-			} else if b&0b11111000 == 0b11110000 {
-				// UTF8 four bytes
-				if index > begin {
-					c.buffer = append(c.buffer, s[begin:index]...)
-				}
-				uniByte = append(uniByte, b)
-				uniMore = 3
 			} else if b < 128 {
 				// Control character from lower 7 bits not previously handled.
 				if index > begin {
@@ -261,8 +233,16 @@ func (c *composer) addEscaped(s []byte) {
 				c.buffer = append(c.buffer, hexDigit[b>>4])
 				c.buffer = append(c.buffer, hexDigit[b&0xF])
 				begin = index + 1
+			} else if r, size := utf8.DecodeRune(s[index:]); r == utf8.RuneError && size == 1 {
+				// Not valid UTF8, which JSON can not represent.
+				if index > begin {
+					c.buffer = append(c.buffer, s[begin:index]...)
+				}
+				c.buffer = append(c.buffer, `\uFFFD`...)
+				begin = index + 1
 			} else {
-				// Some character from upper 7 bits not previously handled but likely printable.
+				// Valid UTF8 sequence, skip over the rest of it.
+				uniMore = size - 1
 			}
 		}
 	}
-- 
2.43.0


From a26dab9e5e82fa2d7739146a2da0c08f395e37a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:37 +0000
Subject: [PATCH 04/63] fix: sloggy quotes strings as Go source instead of JSON

---
 handlers/sloggy/composer.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/handlers/sloggy/composer.go b/handlers/sloggy/composer.go
index 926ccda..7916a7b 100644
--- a/handlers/sloggy/composer.go
+++ b/handlers/sloggy/composer.go
@@ -256,7 +256,14 @@ func (c *composer) addMacAddress(mac net.HardwareAddr) error {
 }
 
 func (c *composer) addString(str string) error {
-	if _, err := c.Write([]byte(strconv.Quote(str))); err != nil {
+	// Go quoting (strconv.Quote) is not the same as JSON quoting.
+	var quoted bytes.Buffer
+	encoder := json.NewEncoder(&quoted)
+	encoder.SetEscapeHTML(false)
+	if err := encoder.Encode(str); err != nil {
+		return fmt.Errorf("encode string: %w", err)
+	}
+	if _, err := c.Write(bytes.TrimSuffix(quoted.Bytes(), []byte{'\n'})); err != nil {
 		return fmt.Errorf("write quoted string: %w", err)
 	}
 	return nil
-- 
2.43.0


From b8381ba0b0f0aa73393be89f8f814d6f5bb0bf7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:38 +0000
Subject: [PATCH 05/63] fix: flash and sloggy do not escape group names given
 to WithGroup

---
 handlers/flash/handler.go  | 6 +++++-
 handlers/sloggy/handler.go | 5 ++++-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/handlers/flash/handler.go b/handlers/flash/handler.go
index cc5eaf9..30c0def 100644
--- a/handlers/flash/handler.go
+++ b/handlers/flash/handler.go
@@ -210,7 +210,11 @@ func (h *Handler) WithGroup(name string) slog.Handler {
 	} else {
 		hdlr.suffix = make([]byte, 0, lenSuffix)
 	}
-	hdlr.prefix = append(hdlr.prefix, []byte(fmt.Sprintf("%s\"%s\": {", prefixStart, name))...)
+	c := newComposer(append(hdlr.prefix, prefixStart...), false, nil, nil, h.extras)
+	defer reuseComposer(c)
+	c.addKey(name)
+	c.addBytes('{')
+	hdlr.prefix = c.getBytes()
 	// Should really be prepending the right brace into the suffix,
 	// but suffix only contains right braces, so it doesn't really matter.
 	hdlr.suffix = append(slices.Clip(h.suffix), '}')
diff --git a/handlers/sloggy/handler.go b/handlers/sloggy/handler.go
index dcaf757..7bf23f8 100644
--- a/handlers/sloggy/handler.go
+++ b/handlers/sloggy/handler.go
@@ -161,9 +161,12 @@ func (h *Handler) WithGroup(name string) slog.Handler {
 		hdlr.suffix.Write(h.suffix.Bytes())
 	}
 
-	if _, err := fmt.Fprintf(&hdlr.prefix, "%s\"%s\": {", prefixStart, name); err != nil {
+	hdlr.prefix.Write(prefixStart)
+	if err := newComposer(&hdlr.prefix, false, nil, nil).addString(name); err != nil {
 		slog.Error("open group", "err", err)
 	}
+	hdlr.prefix.Write(colonSpace)
+	hdlr.prefix.Write(braceLeft)
 	if _, err := hdlr.suffix.Write(braceRight); err != nil {
 		slog.Error("group right brace", "err", err)
 	}
-- 
2.43.0


From f4d5487d55357b74112aafa4eb72f11d8f9430c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:39 +0000
Subject: [PATCH 06/63] fix: sloggy writes a record in pieces outside of its
 mutex

---
 handlers/sloggy/handler.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/handlers/sloggy/handler.go b/handlers/sloggy/handler.go
index 7bf23f8..1bd9852 100644
--- a/handlers/sloggy/handler.go
+++ b/handlers/sloggy/handler.go
@@ -40,7 +40,10 @@ func (h *Handler) Enabled(_ context.Context, level slog.Level) bool {
 }
 
 func (h *Handler) Handle(_ context.Context, record slog.Record) error {
-	c := newComposer(h.writer, false, h.options.ReplaceAttr, h.groups)
+	// Compose the entire record before sending it to the writer in a single call so that
+	// records from different goroutines can't mix and failed records don't leave fragments.
+	var buffer bytes.Buffer
+	c := newComposer(&buffer, false, h.options.ReplaceAttr, h.groups)
 	if err := c.begin(); err != nil {
 		return fmt.Errorf("begin: %w", err)
 	}
@@ -96,11 +99,15 @@ func (h *Handler) Handle(_ context.Context, record slog.Record) error {
 		return fmt.Errorf("end: %w", err)
 	}
 
+	if _, err := c.Write(newLine); err != nil {
+		return fmt.Errorf("newLine: %w", err)
+	}
+
 	h.mutex.Lock()
 	defer h.mutex.Unlock()
 
-	if _, err := c.Write(newLine); err != nil {
-		return fmt.Errorf("newLine: %w", err)
+	if _, err := h.writer.Write(buffer.Bytes()); err != nil {
+		return fmt.Errorf("write log line: %w", err)
 	}
 
 	return nil
-- 
2.43.0


From b73d9de32b78d3f62eeb491c8ac248c353d0a36c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:40 +0000
Subject: [PATCH 07/63] fix: flash logs an empty level name for levels between
 the standard ones

---
 handlers/flash/extras.go  | 9 +++++++++
 handlers/flash/handler.go | 4 ++--
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/handlers/flash/extras.go b/handlers/flash/extras.go
index 3672f86..65e9ef0 100644
--- a/handlers/flash/extras.go
+++ b/handlers/flash/extras.go
@@ -85,3 +85,12 @@ func fixExtras(extras *Extras) *Extras {
 	}
 	return extras
 }
+
+// levelName returns the configured name for the specified level or,
+// for levels which have not been configured, the slog name (e.g. "INFO+2").
+func (e *Extras) levelName(level slog.Level) string {
+	if name := e.LevelNames[level]; name != "" {
+		return name
+	}
+	return level.String()
+}
diff --git a/handlers/flash/handler.go b/handlers/flash/handler.go
index 30c0def..566b215 100644
--- a/handlers/flash/handler.go
+++ b/handlers/flash/handler.go
@@ -76,8 +76,8 @@ func (h *Handler) Handle(_ context.Context, record slog.Record) error {
 	if h.options.ReplaceAttr == nil {
 		c.addSeparator()
 		c.addKey(h.extras.LevelKey)
-		c.addString(h.extras.LevelNames[record.Level])
-	} else if err := c.addAttribute(slog.String(h.extras.LevelKey, h.extras.LevelNames[record.Level])); err != nil {
+		c.addString(h.extras.levelName(record.Level))
+	} else if err := c.addAttribute(slog.String(h.extras.LevelKey, h.extras.levelName(record.Level))); err != nil {
 		return fmt.Errorf("add level: %w", err)
 	}
 	if h.options.ReplaceAttr == nil {
-- 
2.43.0


From 54d9bb04c56d7a1111b1e6e09c3ec5faa61d04d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:41 +0000
Subject: [PATCH 08/63] fix: flash and sloggy write their defaults into the
 caller's options

---
 handlers/flash/extras.go   | 6 ++++++
 handlers/flash/handler.go  | 4 ++++
 handlers/sloggy/handler.go | 4 ++++
 3 files changed, 14 insertions(+)

diff --git a/handlers/flash/extras.go b/handlers/flash/extras.go
index 65e9ef0..ea5d81f 100644
--- a/handlers/flash/extras.go
+++ b/handlers/flash/extras.go
@@ -2,6 +2,7 @@ package flash
 
 import (
 	"log/slog"
+	"maps"
 	"time"
 )
 
@@ -52,6 +53,11 @@ type Extras struct {
 func fixExtras(extras *Extras) *Extras {
 	if extras == nil {
 		extras = &Extras{}
+	} else {
+		// Don't change the caller's object (or its map).
+		fixed := *extras
+		fixed.LevelNames = maps.Clone(extras.LevelNames)
+		extras = &fixed
 	}
 	if extras.TimeFormat == "" {
 		extras.TimeFormat = DefaultTimeFormat
diff --git a/handlers/flash/handler.go b/handlers/flash/handler.go
index 566b215..195d109 100644
--- a/handlers/flash/handler.go
+++ b/handlers/flash/handler.go
@@ -228,6 +228,10 @@ func (h *Handler) WithGroup(name string) slog.Handler {
 func fixOptions(options *slog.HandlerOptions) *slog.HandlerOptions {
 	if options == nil {
 		options = &slog.HandlerOptions{}
+	} else {
+		// Don't change the caller's object.
+		fixed := *options
+		options = &fixed
 	}
 	if options.Level == nil {
 		options.Level = slog.LevelInfo
diff --git a/handlers/sloggy/handler.go b/handlers/sloggy/handler.go
index 1bd9852..4012ca8 100644
--- a/handlers/sloggy/handler.go
+++ b/handlers/sloggy/handler.go
@@ -188,6 +188,10 @@ func (h *Handler) WithGroup(name string) slog.Handler {
 func fixOptions(options *slog.HandlerOptions) *slog.HandlerOptions {
 	if options == nil {
 		options = &slog.HandlerOptions{}
+	} else {
+		// Don't change the caller's object.
+		fixed := *options
+		options = &fixed
 	}
 	if options.Level == nil {
 		options.Level = slog.LevelInfo
-- 
2.43.0


From 6dea4565b10ddf88c202a3172b3ec7b2157eaca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:41 +0000
Subject: [PATCH 09/63] fix: flash and sloggy lose or corrupt records with
 values that can't be marshaled

---
 handlers/flash/composer.go  | 15 +++++++++++----
 handlers/sloggy/composer.go |  7 ++++++-
 2 files changed, 17 insertions(+), 5 deletions(-)

diff --git a/handlers/flash/composer.go b/handlers/flash/composer.go
index 73d2fbb..6fbc600 100644
--- a/handlers/flash/composer.go
+++ b/handlers/flash/composer.go
@@ -5,6 +5,7 @@ import (
 	"encoding/json"
 	"fmt"
 	"log/slog"
+	"math"
 	"strconv"
 	"time"
 	"unicode/utf8"
@@ -98,7 +99,12 @@ func (c *composer) addAttribute(attr slog.Attr) error {
 	case slog.KindDuration:
 		c.buffer = strconv.AppendInt(c.buffer, value.Duration().Nanoseconds(), 10)
 	case slog.KindFloat64:
-		c.buffer = strconv.AppendFloat(c.buffer, value.Float64(), 'f', -1, 64)
+		if f := value.Float64(); math.IsNaN(f) || math.IsInf(f, 0) {
+			// There is no JSON number for these.
+			return c.addAny(f)
+		} else {
+			c.buffer = strconv.AppendFloat(c.buffer, f, 'f', -1, 64)
+		}
 	case slog.KindInt64:
 		c.buffer = strconv.AppendInt(c.buffer, value.Int64(), 10)
 	case slog.KindString:
@@ -141,7 +147,8 @@ func (c *composer) addAny(a any) error {
 		// Note: Important stuff buried in some random structure may be ignored.
 		//       For example, a LogValuer or a Stringer might show up as an empty map.
 		if b, err := json.Marshal(a); err != nil {
-			return fmt.Errorf("marshal %v: %w", a, err)
+			c.addString("!ERROR:" + err.Error())
+			return nil
 		} else {
 			c.buffer = append(c.buffer, b...)
 			return nil
@@ -271,7 +278,7 @@ func (c *composer) addJSONMarshaler(m json.Marshaler) error {
 	if txt, err := m.MarshalJSON(); err != nil {
 		slog.Error("MarshalJSON error", "err", err)
 		c.addString("!ERROR:" + err.Error())
-		return fmt.Errorf("marshal JSON: %w", err)
+		return nil
 	} else {
 		c.addString(string(txt))
 		return nil
@@ -288,7 +295,7 @@ func (c *composer) addTextMarshaler(m encoding.TextMarshaler) error {
 	if txt, err := m.MarshalText(); err != nil {
 		slog.Error("MarshalText error", "err", err)
 		c.addString("!ERROR:" + err.Error())
-		return fmt.Errorf("marshal text: %w", err)
+		return nil
 	} else {
 		c.addString(string(txt))
 		return nil
diff --git a/handlers/sloggy/composer.go b/handlers/sloggy/composer.go
index 7916a7b..aa0f3dd 100644
--- a/handlers/sloggy/composer.go
+++ b/handlers/sloggy/composer.go
@@ -7,6 +7,7 @@ import (
 	"fmt"
 	"io"
 	"log/slog"
+	"math"
 	"net"
 	"strconv"
 	"time"
@@ -170,7 +171,7 @@ func (c *composer) addAny(a any) error {
 		// Note: Important stuff buried in some random structure may be ignored.
 		//       For example, a LogValuer or a Stringer might show up as an empty map.
 		if b, err := json.Marshal(a); err != nil {
-			return fmt.Errorf("marshal %v: %w", a, err)
+			return c.addString("!ERROR:" + err.Error())
 		} else if _, err := c.Write(b); err != nil {
 			return fmt.Errorf("write bytes: %w", err)
 		} else {
@@ -198,6 +199,10 @@ func (c *composer) addError(e error) error {
 }
 
 func (c *composer) addFloat64(f float64) error {
+	if math.IsNaN(f) || math.IsInf(f, 0) {
+		// There is no JSON number for these.
+		return c.addAny(f)
+	}
 	if _, err := c.Write(strconv.AppendFloat([]byte{}, f, 'f', -1, 64)); err != nil {
 		return fmt.Errorf("float64: %w", err)
 	}
-- 
2.43.0


From e6afe57e79cdeaea4f2875c129b5f7045df0715e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:42 +0000
Subject: [PATCH 10/63] fix: flash and sloggy panic when a method of a logged
 value does

---
 handlers/flash/composer.go  | 13 +++++++++++++
 handlers/sloggy/composer.go | 14 +++++++++++++-
 2 files changed, 26 insertions(+), 1 deletion(-)

diff --git a/handlers/flash/composer.go b/handlers/flash/composer.go
index 6fbc600..809d91c 100644
--- a/handlers/flash/composer.go
+++ b/handlers/flash/composer.go
@@ -6,6 +6,7 @@ import (
 	"fmt"
 	"log/slog"
 	"math"
+	"reflect"
 	"strconv"
 	"time"
 	"unicode/utf8"
@@ -133,6 +134,18 @@ func (c *composer) addAttributes(attrs []slog.Attr) error {
 // -----------------------------------------------------------------------------
 
 func (c *composer) addAny(a any) error {
+	defer func(length int) {
+		if r := recover(); r != nil {
+			// Methods of the value may panic, don't let this break the application.
+			// The approach, as usual, is to do what slog.JSONHandler does.
+			c.buffer = c.buffer[:length]
+			if v := reflect.ValueOf(a); v.Kind() == reflect.Pointer && v.IsNil() {
+				c.addString("<nil>")
+			} else {
+				c.addString(fmt.Sprintf("!PANIC: %v", r))
+			}
+		}
+	}(len(c.buffer))
 	switch v := a.(type) {
 	case fmt.Stringer:
 		c.addString(v.String())
diff --git a/handlers/sloggy/composer.go b/handlers/sloggy/composer.go
index aa0f3dd..729a8fa 100644
--- a/handlers/sloggy/composer.go
+++ b/handlers/sloggy/composer.go
@@ -9,6 +9,7 @@ import (
 	"log/slog"
 	"math"
 	"net"
+	"reflect"
 	"strconv"
 	"time"
 
@@ -150,7 +151,18 @@ var boolImage = map[bool][]byte{
 	true:  boolTrue,
 }
 
-func (c *composer) addAny(a any) error {
+func (c *composer) addAny(a any) (err error) {
+	defer func() {
+		if r := recover(); r != nil {
+			// Methods of the value may panic, don't let this break the application.
+			// The approach, as usual, is to do what slog.JSONHandler does.
+			if v := reflect.ValueOf(a); v.Kind() == reflect.Pointer && v.IsNil() {
+				err = c.addString("<nil>")
+			} else {
+				err = c.addString(fmt.Sprintf("!PANIC: %v", r))
+			}
+		}
+	}()
 	switch v := a.(type) {
 	case net.IP:
 		return c.addIPAddress(v)
-- 
2.43.0


From a58f168dd77d61af86c0316fe94fbf4d5ca537f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:43 +0000
Subject: [PATCH 11/63] fix: flash does not escape the text of a configured
 time format

---
 handlers/flash/composer.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/handlers/flash/composer.go b/handlers/flash/composer.go
index 809d91c..83f201b 100644
--- a/handlers/flash/composer.go
+++ b/handlers/flash/composer.go
@@ -316,8 +316,10 @@ func (c *composer) addTextMarshaler(m encoding.TextMarshaler) error {
 }
 
 func (c *composer) addTime(t time.Time) {
+	// The configured time format may contain characters that must be escaped.
+	var array [64]byte
 	c.buffer = append(c.buffer, '"')
-	c.buffer = t.AppendFormat(c.buffer, c.extras.TimeFormat)
+	c.addEscaped(t.AppendFormat(array[:0], c.extras.TimeFormat))
 	c.buffer = append(c.buffer, '"')
 }
 
-- 
2.43.0


From a612aa3cbc236dab51eaa6bababd1bd6560fcd0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:29 +0000
Subject: [PATCH 12/63] fix: flash and sloggy call ReplaceAttr for groups, for
 unresolved values, and with the wrong groups

---
 handlers/flash/composer.go  | 41 ++++++++++++++++---------------------
 handlers/flash/handler.go   |  4 +++-
 handlers/sloggy/composer.go | 23 +++++++--------------
 handlers/sloggy/handler.go  | 11 +++++++---
 4 files changed, 36 insertions(+), 43 deletions(-)

diff --git a/handlers/flash/composer.go b/handlers/flash/composer.go
index 83f201b..4823e80 100644
--- a/handlers/flash/composer.go
+++ b/handlers/flash/composer.go
@@ -7,6 +7,7 @@ import (
 	"log/slog"
 	"math"
 	"reflect"
+	"slices"
 	"strconv"
 	"time"
 	"unicode/utf8"
@@ -20,12 +21,11 @@ var composerPool = newGenPool[composer]()
 
 // composer handles writing attributes to an io.Writer.
 type composer struct {
-	buffer     []byte
-	started    bool
-	replace    infra.AttrFn
-	groups     []string
-	extras     *Extras
-	basicField map[string]bool
+	buffer  []byte
+	started bool
+	replace infra.AttrFn
+	groups  []string
+	extras  *Extras
 }
 
 func newComposer(buffer []byte, started bool, replace infra.AttrFn, groups []string, extras *Extras) *composer {
@@ -35,11 +35,6 @@ func newComposer(buffer []byte, started bool, replace infra.AttrFn, groups []str
 	comp.started = started
 	comp.replace = replace
 	comp.groups = groups
-	comp.basicField = make(map[string]bool, 4)
-	comp.basicField[extras.LevelKey] = true
-	comp.basicField[extras.MessageKey] = true
-	comp.basicField[extras.SourceKey] = true
-	comp.basicField[extras.TimeKey] = true
 	return comp
 }
 
@@ -58,19 +53,13 @@ func (c *composer) getBytes() []byte {
 // -----------------------------------------------------------------------------
 
 func (c *composer) addAttribute(attr slog.Attr) error {
-	kind := attr.Value.Kind()
-	if kind == slog.KindLogValuer {
+	attr.Value = attr.Value.Resolve()
+	if c.replace != nil && attr.Value.Kind() != slog.KindGroup {
+		// The function is not called for groups, only for their contents.
+		attr = c.replace(c.groups, attr)
 		attr.Value = attr.Value.Resolve()
-		kind = attr.Value.Kind()
-	}
-	if c.replace != nil {
-		var groups []string
-		if !c.basicField[attr.Key] {
-			groups = c.groups
-		}
-		attr = c.replace(groups, attr)
-		kind = attr.Value.Kind()
 	}
+	kind := attr.Value.Kind()
 	if attr.Equal(infra.EmptyAttr()) {
 		return nil
 	}
@@ -90,7 +79,13 @@ func (c *composer) addAttribute(attr slog.Attr) error {
 	c.addKey(attr.Key)
 	switch kind {
 	case slog.KindGroup:
-		return c.addGroup(value.Group())
+		groups := c.groups
+		if c.replace != nil {
+			c.groups = append(slices.Clip(c.groups), attr.Key)
+		}
+		err := c.addGroup(value.Group())
+		c.groups = groups
+		return err
 	case slog.KindBool:
 		if value.Bool() {
 			c.buffer = append(c.buffer, "true"...)
diff --git a/handlers/flash/handler.go b/handlers/flash/handler.go
index 195d109..195289d 100644
--- a/handlers/flash/handler.go
+++ b/handlers/flash/handler.go
@@ -56,7 +56,8 @@ func (h *Handler) Handle(_ context.Context, record slog.Record) error {
 	buffer := logPool.get()[:0]
 	defer func() { logPool.put(buffer) }()
 
-	c := newComposer(buffer, false, h.options.ReplaceAttr, h.groups, h.extras)
+	// The basic fields are never in a group.
+	c := newComposer(buffer, false, h.options.ReplaceAttr, nil, h.extras)
 	defer reuseComposer(c)
 	c.addBytes('{')
 
@@ -103,6 +104,7 @@ func (h *Handler) Handle(_ context.Context, record slog.Record) error {
 		}
 	}
 
+	c.groups = h.groups
 	if len(h.prefix) > 0 {
 		c.addSeparator()
 		c.addByteArray(h.prefix)
diff --git a/handlers/sloggy/composer.go b/handlers/sloggy/composer.go
index 729a8fa..391c6d4 100644
--- a/handlers/sloggy/composer.go
+++ b/handlers/sloggy/composer.go
@@ -10,6 +10,7 @@ import (
 	"math"
 	"net"
 	"reflect"
+	"slices"
 	"strconv"
 	"time"
 
@@ -27,13 +28,6 @@ var (
 	newLine     = []byte{'\r', '\n'}
 )
 
-var basicField = map[string]bool{
-	slog.TimeKey:    true,
-	slog.LevelKey:   true,
-	slog.MessageKey: true,
-	slog.SourceKey:  true,
-}
-
 // -----------------------------------------------------------------------------
 
 // composer handles writing attributes to an io.Writer.
@@ -71,13 +65,10 @@ func (c *composer) addAttribute(attr slog.Attr) error {
 		return nil
 	}
 	value := attr.Value.Resolve()
-	if c.replace != nil {
-		var groups []string
-		if !basicField[attr.Key] {
-			groups = c.groups
-		}
-		attr = c.replace(groups, attr)
-		value = attr.Value
+	if c.replace != nil && value.Kind() != slog.KindGroup {
+		// The function is not called for groups, only for their contents.
+		attr = c.replace(c.groups, slog.Attr{Key: attr.Key, Value: value})
+		value = attr.Value.Resolve()
 	}
 	if attr.Equal(infra.EmptyAttr()) {
 		return nil
@@ -221,12 +212,12 @@ func (c *composer) addFloat64(f float64) error {
 	return nil
 }
 
-func (c *composer) addGroup(_ string, attrs []slog.Attr) error {
+func (c *composer) addGroup(name string, attrs []slog.Attr) error {
 	if err := c.begin(); err != nil {
 		return fmt.Errorf("begin: %w", err)
 	}
 	// Local composer object resets started flag
-	cg := newComposer(c.Writer, false, c.replace, c.groups)
+	cg := newComposer(c.Writer, false, c.replace, append(slices.Clip(c.groups), name))
 	if err := cg.addAttributes(attrs); err != nil {
 		return fmt.Errorf("add attributes: %w", err)
 	}
diff --git a/handlers/sloggy/handler.go b/handlers/sloggy/handler.go
index 4012ca8..b3dc883 100644
--- a/handlers/sloggy/handler.go
+++ b/handlers/sloggy/handler.go
@@ -43,7 +43,7 @@ func (h *Handler) Handle(_ context.Context, record slog.Record) error {
 	// Compose the entire record before sending it to the writer in a single call so that
 	// records from different goroutines can't mix and failed records don't leave fragments.
 	var buffer bytes.Buffer
-	c := newComposer(&buffer, false, h.options.ReplaceAttr, h.groups)
+	c := newComposer(&buffer, false, h.options.ReplaceAttr, nil)
 	if err := c.begin(); err != nil {
 		return fmt.Errorf("begin: %w", err)
 	}
@@ -68,10 +68,15 @@ func (h *Handler) Handle(_ context.Context, record slog.Record) error {
 		return fmt.Errorf("add basic attributes: %w", err)
 	}
 
+	// The basic fields are never in a group but the rest may be.
+	c.groups = h.groups
 	if h.prefix.Len() > 0 {
-		if _, err := c.Write(commaSpace); err != nil {
-			return fmt.Errorf("comma space: %w", err)
+		if c.started {
+			if _, err := c.Write(commaSpace); err != nil {
+				return fmt.Errorf("comma space: %w", err)
+			}
 		}
+		c.setStarted(true)
 		if _, err := c.Write(h.prefix.Bytes()); err != nil {
 			return fmt.Errorf("write prefix: %w", err)
 		}
-- 
2.43.0


From ef7b09de533f87af179101f6fbf3e4c7e8828ab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:29 +0000
Subject: [PATCH 13/63] fix: flash and sloggy log empty groups when their
 content is empty, replaced, or never added

---
 handlers/flash/composer.go  |  5 +++
 handlers/flash/group.go     | 65 -------------------------------------
 handlers/flash/handler.go   | 41 ++++++++++++++++-------
 handlers/sloggy/composer.go | 21 ++++++++----
 handlers/sloggy/group.go    | 65 -------------------------------------
 handlers/sloggy/handler.go  | 44 ++++++++++++++++++-------
 6 files changed, 81 insertions(+), 160 deletions(-)
 delete mode 100644 handlers/flash/group.go
 delete mode 100644 handlers/sloggy/group.go

diff --git a/handlers/flash/composer.go b/handlers/flash/composer.go
index 4823e80..9ad21eb 100644
--- a/handlers/flash/composer.go
+++ b/handlers/flash/composer.go
@@ -75,6 +75,7 @@ func (c *composer) addAttribute(attr slog.Attr) error {
 			return nil
 		}
 	}
+	started, length := c.started, len(c.buffer)
 	c.addSeparator()
 	c.addKey(attr.Key)
 	switch kind {
@@ -85,6 +86,10 @@ func (c *composer) addAttribute(attr slog.Attr) error {
 		}
 		err := c.addGroup(value.Group())
 		c.groups = groups
+		if !c.started {
+			// Nothing in the group was logged so it is empty after all.
+			c.started, c.buffer = started, c.buffer[:length]
+		}
 		return err
 	case slog.KindBool:
 		if value.Bool() {
diff --git a/handlers/flash/group.go b/handlers/flash/group.go
deleted file mode 100644
index 504c9fa..0000000
--- a/handlers/flash/group.go
+++ /dev/null
@@ -1,65 +0,0 @@
-package flash
-
-import (
-	"context"
-	"log/slog"
-
-	"github.com/madkins23/go-slog/infra"
-)
-
-// group structure provides embedded group support to flash handler.
-type group struct {
-	*Handler
-
-	// name of group.
-	name string
-
-	// parent handler or group.
-	parent slog.Handler
-	// Unlike the Handler, which doesn't know its parent,
-	// a group must be able to find its parent when deleting an empty subgroup.
-}
-
-func (g *group) Handle(ctx context.Context, record slog.Record) error {
-	count := 0
-	var dead = false
-	var deadGroup string
-	if deadVal := ctx.Value("deadGroup"); deadVal != nil {
-		// This is a call back to remove a (now empty) group.
-		deadGroup = deadVal.(string)
-	}
-	record.Attrs(func(attr slog.Attr) bool {
-		if !attr.Equal(infra.EmptyAttr()) {
-			count++
-			if deadGroup != "" && attr.Key == deadGroup {
-				if attr.Value.Kind() == slog.KindGroup {
-					dead = true
-				}
-			}
-			return false
-		}
-		return true
-	})
-	if count < 1 || // There is nothing in the record attributes, the group is empty or...
-		(count < 2 && dead) { // ...there is only a single attribute which is the dead group that called.
-		// Since the normal handler prefix already includes group name and open brace
-		// it isn't possible to use the current handler prefix.
-		// The parent handler prefix, however, should work just fine.
-		// Pass in the context variable "deadGroup" to specify the name of this (now empty) group.
-		return g.parent.Handle(context.WithValue(ctx, "deadGroup", g.name), record)
-		// This is a weird solution, but it seems to work.
-	}
-	return g.Handler.Handle(ctx, record)
-}
-
-func (g *group) WithGroup(name string) slog.Handler {
-	hdlr := g.Handler.WithGroup(name)
-	if group, ok := hdlr.(*group); ok {
-		// Override the previously set parent to be this object.
-		group.parent = g
-	} else {
-		// Shouldn't happen but method has no error result.
-		slog.Error("not a *group")
-	}
-	return hdlr
-}
diff --git a/handlers/flash/handler.go b/handlers/flash/handler.go
index 195289d..19d4398 100644
--- a/handlers/flash/handler.go
+++ b/handlers/flash/handler.go
@@ -25,6 +25,10 @@ type Handler struct {
 	mutex          *sync.Mutex
 	prefix, suffix []byte
 	groups         []string
+
+	// solid and depth are the lengths of prefix and suffix without the
+	// trailing groups in prefix which do not (yet) contain an attribute.
+	solid, depth int
 }
 
 // NewHandler returns a new sloggy handler with the specified output writer and slog.HandlerOptions.
@@ -105,6 +109,7 @@ func (h *Handler) Handle(_ context.Context, record slog.Record) error {
 	}
 
 	c.groups = h.groups
+	started, length := c.started, len(c.buffer)
 	if len(h.prefix) > 0 {
 		c.addSeparator()
 		c.addByteArray(h.prefix)
@@ -124,9 +129,18 @@ func (h *Handler) Handle(_ context.Context, record slog.Record) error {
 	if err != nil {
 		return fmt.Errorf("add attribute: %w", err)
 	}
-	if len(h.suffix) > 0 {
-		c.addByteArray(h.suffix)
+	suffix := h.suffix
+	if len(h.prefix) > 0 && !c.started {
+		// There is nothing in the last group (or groups) opened by the prefix.
+		c.buffer = c.buffer[:length]
+		c.started = started
+		if h.solid > 0 {
+			c.addSeparator()
+			c.addByteArray(h.prefix[:h.solid])
+		}
+		suffix = suffix[:h.depth]
 	}
+	c.addByteArray(suffix)
 	c.addBytes('}', '\n')
 
 	h.mutex.Lock()
@@ -145,6 +159,8 @@ func (h *Handler) WithAttrs(attrs []slog.Attr) slog.Handler {
 		writer:  h.writer,
 		mutex:   h.mutex,
 		groups:  h.groups,
+		solid:   h.solid,
+		depth:   h.depth,
 	}
 	var prefixStarted bool
 	if len(h.prefix) > 0 {
@@ -170,6 +186,9 @@ func (h *Handler) WithAttrs(attrs []slog.Attr) slog.Handler {
 		slog.Error("adding with attributes", "err", err)
 	}
 	hdlr.prefix = c.getBytes()
+	if len(hdlr.prefix) > len(h.prefix) {
+		hdlr.solid, hdlr.depth = len(hdlr.prefix), len(hdlr.suffix)
+	}
 
 	return hdlr
 }
@@ -185,16 +204,14 @@ func (h *Handler) WithGroup(name string) slog.Handler {
 		// Even then, the function may not care, but we don't know that here.
 		groups = append(slices.Clip(h.groups), name)
 	}
-	hdlr := &group{
-		Handler: &Handler{
-			options: h.options,
-			extras:  h.extras,
-			writer:  h.writer,
-			mutex:   h.mutex,
-			groups:  groups,
-		},
-		name:   name,
-		parent: h,
+	hdlr := &Handler{
+		options: h.options,
+		extras:  h.extras,
+		writer:  h.writer,
+		mutex:   h.mutex,
+		groups:  groups,
+		solid:   h.solid,
+		depth:   h.depth,
 	}
 	prefixStart := ""
 	if len(h.prefix) > 0 {
diff --git a/handlers/sloggy/composer.go b/handlers/sloggy/composer.go
index 391c6d4..cf0656f 100644
--- a/handlers/sloggy/composer.go
+++ b/handlers/sloggy/composer.go
@@ -73,6 +73,7 @@ func (c *composer) addAttribute(attr slog.Attr) error {
 	if attr.Equal(infra.EmptyAttr()) {
 		return nil
 	}
+	var groupBytes []byte
 	if value.Kind() == slog.KindGroup {
 		if emptyGroup(value.Group()) {
 			return nil
@@ -83,6 +84,16 @@ func (c *composer) addAttribute(attr slog.Attr) error {
 			}
 			return nil
 		}
+		// Local composer object resets started flag
+		var group bytes.Buffer
+		cg := newComposer(&group, false, c.replace, append(slices.Clip(c.groups), attr.Key))
+		if err := cg.addAttributes(value.Group()); err != nil {
+			return fmt.Errorf("add group attributes: %w", err)
+		} else if !cg.started {
+			// Nothing in the group was logged so it is empty after all.
+			return nil
+		}
+		groupBytes = group.Bytes()
 	}
 	if !c.started {
 		c.started = true
@@ -97,7 +108,7 @@ func (c *composer) addAttribute(attr slog.Attr) error {
 	}
 	switch value.Kind() {
 	case slog.KindGroup:
-		return c.addGroup(attr.Key, value.Group())
+		return c.addGroup(groupBytes)
 	case slog.KindBool:
 		return c.addBool(value.Bool())
 	case slog.KindDuration:
@@ -212,14 +223,12 @@ func (c *composer) addFloat64(f float64) error {
 	return nil
 }
 
-func (c *composer) addGroup(name string, attrs []slog.Attr) error {
+func (c *composer) addGroup(group []byte) error {
 	if err := c.begin(); err != nil {
 		return fmt.Errorf("begin: %w", err)
 	}
-	// Local composer object resets started flag
-	cg := newComposer(c.Writer, false, c.replace, append(slices.Clip(c.groups), name))
-	if err := cg.addAttributes(attrs); err != nil {
-		return fmt.Errorf("add attributes: %w", err)
+	if _, err := c.Write(group); err != nil {
+		return fmt.Errorf("group attributes: %w", err)
 	}
 	if err := c.end(); err != nil {
 		return fmt.Errorf("end: %w", err)
diff --git a/handlers/sloggy/group.go b/handlers/sloggy/group.go
deleted file mode 100644
index 2009082..0000000
--- a/handlers/sloggy/group.go
+++ /dev/null
@@ -1,65 +0,0 @@
-package sloggy
-
-import (
-	"context"
-	"log/slog"
-
-	"github.com/madkins23/go-slog/infra"
-)
-
-// group structure provides embedded group support to sloggy handler.
-type group struct {
-	*Handler
-
-	// name of group.
-	name string
-
-	// parent handler or group.
-	parent slog.Handler
-	// Unlike the Handler, which doesn't know its parent,
-	// a group must be able to find its parent when deleting an empty subgroup.
-}
-
-func (g *group) Handle(ctx context.Context, record slog.Record) error {
-	count := 0
-	var dead = false
-	var deadGroup string
-	if deadVal := ctx.Value("deadGroup"); deadVal != nil {
-		// This is a call back to remove a (now empty) group.
-		deadGroup = deadVal.(string)
-	}
-	record.Attrs(func(attr slog.Attr) bool {
-		if !attr.Equal(infra.EmptyAttr()) {
-			count++
-			if deadGroup != "" && attr.Key == deadGroup {
-				if attr.Value.Kind() == slog.KindGroup {
-					dead = true
-				}
-			}
-			return false
-		}
-		return true
-	})
-	if count < 1 || // There is nothing in the record attributes, the group is empty or...
-		(count < 2 && dead) { // ...there is only a single attribute which is the dead group that called.
-		// Since the normal handler prefix already includes group name and open brace
-		// it isn't possible to use the current handler prefix.
-		// The parent handler prefix, however, should work just fine.
-		// Pass in the context variable "deadGroup" to specify the name of this (now empty) group.
-		return g.parent.Handle(context.WithValue(ctx, "deadGroup", g.name), record)
-		// This is a weird solution, but it seems to work.
-	}
-	return g.Handler.Handle(ctx, record)
-}
-
-func (g *group) WithGroup(name string) slog.Handler {
-	hdlr := g.Handler.WithGroup(name)
-	if group, ok := hdlr.(*group); ok {
-		// Override the previously set parent to be this object.
-		group.parent = g
-	} else {
-		// Shouldn't happen but method has no error result.
-		slog.Error("not a *group")
-	}
-	return hdlr
-}
diff --git a/handlers/sloggy/handler.go b/handlers/sloggy/handler.go
index b3dc883..56bb096 100644
--- a/handlers/sloggy/handler.go
+++ b/handlers/sloggy/handler.go
@@ -20,6 +20,10 @@ type Handler struct {
 	mutex          *sync.Mutex
 	prefix, suffix bytes.Buffer
 	groups         []string
+
+	// solid and depth are the lengths of prefix and suffix without the
+	// trailing groups in prefix which do not (yet) contain an attribute.
+	solid, depth int
 }
 
 // NewHandler returns a new sloggy handler with the specified output writer and slog.HandlerOptions.
@@ -70,6 +74,7 @@ func (h *Handler) Handle(_ context.Context, record slog.Record) error {
 
 	// The basic fields are never in a group but the rest may be.
 	c.groups = h.groups
+	started, length := c.started, buffer.Len()
 	if h.prefix.Len() > 0 {
 		if c.started {
 			if _, err := c.Write(commaSpace); err != nil {
@@ -96,7 +101,19 @@ func (h *Handler) Handle(_ context.Context, record slog.Record) error {
 		return fmt.Errorf("add attributes: %w", err)
 	}
 
-	if _, err := c.Write(h.suffix.Bytes()); err != nil {
+	suffix := h.suffix.Bytes()
+	if h.prefix.Len() > 0 && !c.started {
+		// There is nothing in the last group (or groups) opened by the prefix.
+		buffer.Truncate(length)
+		if h.solid > 0 {
+			if started {
+				buffer.Write(commaSpace)
+			}
+			buffer.Write(h.prefix.Bytes()[:h.solid])
+		}
+		suffix = suffix[:h.depth]
+	}
+	if _, err := c.Write(suffix); err != nil {
 		return fmt.Errorf("write suffix: %w", err)
 	}
 
@@ -126,6 +143,8 @@ func (h *Handler) WithAttrs(attrs []slog.Attr) slog.Handler {
 		groups:  h.groups,
 		prefix:  bytes.Buffer{},
 		suffix:  bytes.Buffer{},
+		solid:   h.solid,
+		depth:   h.depth,
 	}
 	var prefixStarted bool
 	if h.prefix.Len() > 0 {
@@ -141,6 +160,9 @@ func (h *Handler) WithAttrs(attrs []slog.Attr) slog.Handler {
 	if err := c.addAttributes(attrs); err != nil {
 		slog.Error("adding with attributes", "err", err)
 	}
+	if hdlr.prefix.Len() > h.prefix.Len() {
+		hdlr.solid, hdlr.depth = hdlr.prefix.Len(), hdlr.suffix.Len()
+	}
 
 	return hdlr
 }
@@ -150,17 +172,15 @@ func (h *Handler) WithGroup(name string) slog.Handler {
 		// Groups with empty names are to be inlined.
 		return h
 	}
-	hdlr := &group{
-		Handler: &Handler{
-			options: h.options,
-			writer:  h.writer,
-			mutex:   h.mutex,
-			prefix:  bytes.Buffer{},
-			suffix:  bytes.Buffer{},
-			groups:  append(slices.Clip(h.groups), name),
-		},
-		name:   name,
-		parent: h,
+	hdlr := &Handler{
+		options: h.options,
+		writer:  h.writer,
+		mutex:   h.mutex,
+		prefix:  bytes.Buffer{},
+		suffix:  bytes.Buffer{},
+		groups:  append(slices.Clip(h.groups), name),
+		solid:   h.solid,
+		depth:   h.depth,
 	}
 	prefixStart := emptyString
 	if h.prefix.Len() > 0 {
-- 
2.43.0


From 8de480847ba6cec6c261eaa4abbbcaad184fdf12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:44 +0000
Subject: [PATCH 14/63] fix: sloggy decides whether an attribute is empty
 before it is resolved

---
 handlers/sloggy/composer.go | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/handlers/sloggy/composer.go b/handlers/sloggy/composer.go
index cf0656f..353b442 100644
--- a/handlers/sloggy/composer.go
+++ b/handlers/sloggy/composer.go
@@ -61,15 +61,13 @@ func (c *composer) begin() error {
 }
 
 func (c *composer) addAttribute(attr slog.Attr) error {
-	if attr.Equal(infra.EmptyAttr()) {
-		return nil
-	}
-	value := attr.Value.Resolve()
-	if c.replace != nil && value.Kind() != slog.KindGroup {
+	attr.Value = attr.Value.Resolve()
+	if c.replace != nil && attr.Value.Kind() != slog.KindGroup {
 		// The function is not called for groups, only for their contents.
-		attr = c.replace(c.groups, slog.Attr{Key: attr.Key, Value: value})
-		value = attr.Value.Resolve()
+		attr = c.replace(c.groups, attr)
+		attr.Value = attr.Value.Resolve()
 	}
+	value := attr.Value
 	if attr.Equal(infra.EmptyAttr()) {
 		return nil
 	}
-- 
2.43.0


From c666af4cc70b612d18ead8e418eddb0182b12d72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:05 +0000
Subject: [PATCH 15/63] fix: gin writer ignores the configured level for
 traffic

---
 gin/writer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gin/writer.go b/gin/writer.go
index 6d0ede9..01f1cb4 100644
--- a/gin/writer.go
+++ b/gin/writer.go
@@ -154,7 +154,7 @@ func (w *writer) Write(p []byte) (int, error) {
 			// Use the pre-existing log message in variable msg.
 		} else {
 			// The traffic data in the log message parsed.
-			level = slog.LevelInfo
+			level = w.Traffic.Level
 			msg = w.Traffic.Message
 			if !w.Traffic.Embed {
 				args = []any{slog.Group(w.Traffic.Group, args...)}
-- 
2.43.0


From d126de1821ac447300b5ef760607599a994bd833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:05 +0000
Subject: [PATCH 16/63] fix: gin writer rejects lines when its level is not one
 of the four constants

---
 gin/writer.go | 15 ++-------------
 1 file changed, 2 insertions(+), 13 deletions(-)

diff --git a/gin/writer.go b/gin/writer.go
index 01f1cb4..ac1d3f9 100644
--- a/gin/writer.go
+++ b/gin/writer.go
@@ -1,6 +1,7 @@
 package gin
 
 import (
+	"context"
 	"fmt"
 	"io"
 	"log/slog"
@@ -162,19 +163,7 @@ func (w *writer) Write(p []byte) (int, error) {
 		}
 	}
 
-	switch level {
-	case slog.LevelDebug:
-		slog.Debug(msg, args...)
-	case slog.LevelError:
-		slog.Error(msg, args...)
-	case slog.LevelInfo:
-		slog.Info(msg, args...)
-	case slog.LevelWarn:
-		slog.Warn(msg, args...)
-	default:
-		// Shouldn't ever happen so no test code coverage here.
-		return 0, fmt.Errorf("unknown log level %s", w.Level)
-	}
+	slog.Log(context.Background(), level.Level(), msg, args...)
 
 	return len(p), nil
 }
-- 
2.43.0


From 838a1e0e0951c81080e8b2c91819ed475a6faef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:32 +0000
Subject: [PATCH 17/63] fix: gin traffic is not parsed when the URL contains
 spaces, quotes, or bars

---
 gin/parser.go | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/gin/parser.go b/gin/parser.go
index 3df5b7d..d6b2618 100644
--- a/gin/parser.go
+++ b/gin/parser.go
@@ -29,7 +29,8 @@ var (
 func Parse(message string) ([]any, error) {
 	// Example line:
 	//  200 |    9.522199ms |             ::1 | GET      "/chart.svg?tag=samber_zap&item=MemAllocs"
-	parts := strings.Split(message, "|")
+	// The URL in the last part may contain the separator.
+	parts := strings.SplitN(message, "|", 4)
 	if len(parts) != 4 {
 		return nil, fmt.Errorf("wrong number of parts: %d", len(parts))
 	}
@@ -50,8 +51,18 @@ func Parse(message string) ([]any, error) {
 	// Parse HTTP method and URL from fourth part.
 	// Example of parts[3]:
 	//  GET      "/chart.svg?tag=samber_zap&item=MemAllocs" System=gin
-	parts = ptnSplit.Split(strings.Trim(parts[3], " "), -1)
+	parts = ptnSplit.Split(strings.Trim(parts[3], " "), 2)
 	if len(parts) == 2 {
+		// Gin quotes the URL as Go source, it may contain spaces.
+		if quoted, err := strconv.QuotedPrefix(parts[1]); err == nil {
+			if url, err := strconv.Unquote(quoted); err == nil {
+				result = append(result, slog.String(string(Method), parts[0]))
+				result = append(result, slog.String(string(Url), url))
+				return result, nil
+			}
+		}
+	}
+	if len(parts) == 2 && !ptnSplit.MatchString(parts[1]) {
 		result = append(result, slog.String(string(Method), parts[0]))
 		result = append(result, slog.String(string(Url), strings.Trim(parts[1], "\"")))
 	}
-- 
2.43.0


From a7c0adbcc1dcadf62e6697a4065d506da597cb2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:06 +0000
Subject: [PATCH 18/63] fix: duplicate fields are missed when their names are
 escaped differently

---
 internal/json/field.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/internal/json/field.go b/internal/json/field.go
index ee3f90f..f974db0 100644
--- a/internal/json/field.go
+++ b/internal/json/field.go
@@ -2,6 +2,7 @@ package json
 
 import (
 	"bytes"
+	"encoding/json"
 	"errors"
 	"fmt"
 	"io"
@@ -286,6 +287,13 @@ func (ctr *FieldCounter) parseObject(countFields bool) error {
 			if err != nil {
 				return ctr.wrapCallError(err, msgParseString, false, false)
 			}
+			if strings.ContainsRune(field, '\\') {
+				// The same name may be written with different escape sequences.
+				var name string
+				if err := json.Unmarshal([]byte(`"`+field+`"`), &name); err == nil {
+					field = name
+				}
+			}
 			if countFields {
 				ctr.counts[field]++
 			}
-- 
2.43.0


From b24074a97b74aa989a83cdb96ede6e1f7c6f0a15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:04 +0000
Subject: [PATCH 19/63] fix: members of a nested object named fields are
 counted as top level fields

---
 internal/json/field.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/internal/json/field.go b/internal/json/field.go
index f974db0..8b9cf63 100644
--- a/internal/json/field.go
+++ b/internal/json/field.go
@@ -178,7 +178,7 @@ func (ctr *FieldCounter) parseArray() error {
 	})
 }
 
-func (ctr *FieldCounter) parseField(field string) error {
+func (ctr *FieldCounter) parseField(field string, countFields bool) error {
 	expectColon := true
 	return ctr.readLoop(func(r rune) error {
 		if unicode.IsSpace(r) {
@@ -193,7 +193,7 @@ func (ctr *FieldCounter) parseField(field string) error {
 		} else if expectColon {
 			return fmt.Errorf(fmtExpectedColon, r)
 		} else if r == '{' {
-			if field == "fields" {
+			if countFields && field == "fields" {
 				// Special case for Apex wherein additional fields are in 'fields' object.
 				delete(ctr.counts, field)
 				return ctr.wrapCallError(ctr.parseObject(true), msgParseObject, true, false)
@@ -298,7 +298,7 @@ func (ctr *FieldCounter) parseObject(countFields bool) error {
 				ctr.counts[field]++
 			}
 			expectComma = true
-			return ctr.wrapCallError(ctr.parseField(field), msgParseField, false, false)
+			return ctr.wrapCallError(ctr.parseField(field, countFields), msgParseField, false, false)
 		case r == '}':
 			return errFinished
 		default:
-- 
2.43.0


From 7c30a82544d0b932d0795f98e952433e936ece29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:11 +0000
Subject: [PATCH 20/63] fix: benchmark records by handler lack GB/s and TB/s

---
 internal/data/bench_parser.go | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/internal/data/bench_parser.go b/internal/data/bench_parser.go
index f061cc7..b74ec4f 100644
--- a/internal/data/bench_parser.go
+++ b/internal/data/bench_parser.go
@@ -99,10 +99,7 @@ func (b *Benchmarks) ParseBenchmarkData(in io.Reader) error {
 			}
 			b.testCPUs[test] = cpus
 
-			if b.byTest[test] == nil {
-				b.byTest[test] = make(HandlerRecords)
-			}
-			b.byTest[test][handler] = TestRecord{
+			record := TestRecord{
 				Runs:           runs,
 				NanosPerOp:     nsOps,
 				MemBytesPerOp:  bytesOp,
@@ -112,16 +109,15 @@ func (b *Benchmarks) ParseBenchmarkData(in io.Reader) error {
 				TbPerSec:       mbSec / 1_000_000.0,
 			}
 
+			if b.byTest[test] == nil {
+				b.byTest[test] = make(HandlerRecords)
+			}
+			b.byTest[test][handler] = record
+
 			if b.ByHandler[handler] == nil {
 				b.ByHandler[handler] = make(TestRecords)
 			}
-			b.ByHandler[handler][test] = TestRecord{
-				Runs:           runs,
-				NanosPerOp:     nsOps,
-				MemBytesPerOp:  bytesOp,
-				MemAllocsPerOp: allocsOp,
-				MbPerSec:       mbSec,
-			}
+			b.ByHandler[handler][test] = record
 		}
 	}
 	if scanner.Err() != nil {
-- 
2.43.0


From 95e5801a1a3db63a29ac21a56ba71b916c65e7a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:12 +0000
Subject: [PATCH 21/63] fix: benchmark lines from a single CPU are not parsed

---
 internal/data/bench_parser.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/internal/data/bench_parser.go b/internal/data/bench_parser.go
index b74ec4f..cd8e573 100644
--- a/internal/data/bench_parser.go
+++ b/internal/data/bench_parser.go
@@ -12,7 +12,7 @@ import (
 var (
 	ptnHandlerDef = regexp.MustCompile(`^#\s*Handler\[(\S+)\]\s*=\s*"(\S+)"\s*$`)
 	ptnWarnLine   = regexp.MustCompile(`^# (.*)`)
-	ptnDataLine   = regexp.MustCompile(`^Benchmark([^/]+)/Benchmark([^-]+)-(\d+)\s+(\d+)\s+(\d+(?:\.\d+)?)\s+ns/op\b`)
+	ptnDataLine   = regexp.MustCompile(`^Benchmark([^/]+)/Benchmark([^-\s]+)(?:-(\d+))?\s+(\d+)\s+(\d+(?:\.\d+)?)\s+ns/op\b`)
 	ptnAllocsOp   = regexp.MustCompile(`\s(\d+)\s+allocs/op\b`)
 	ptnBytesOp    = regexp.MustCompile(`\s(\d+)\s+B/op\b`)
 	ptnMbSec      = regexp.MustCompile(`\s(\d+(?:\.\d+)?)\s+MB/s`)
@@ -62,7 +62,10 @@ func (b *Benchmarks) ParseBenchmarkData(in io.Reader) error {
 			// Process a data line.
 			hdlrBytes = matches[1]
 			testBytes = matches[2]
-			if cpus, err = strconv.ParseUint(string(matches[3]), 10, 64); err != nil {
+			if len(matches[3]) == 0 {
+				// The suffix is omitted when there is only one CPU.
+				cpus = 1
+			} else if cpus, err = strconv.ParseUint(string(matches[3]), 10, 64); err != nil {
 				return fmt.Errorf("parse cpus: %w", err)
 			}
 			if runs, err = strconv.ParseUint(string(matches[4]), 10, 64); err != nil {
-- 
2.43.0


From 1a5075f514d302677b3847ee17e0fbddfd472d1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:13 +0000
Subject: [PATCH 22/63] fix: input lines over 64 KB stop parsing of benchmark
 and warning data

---
 internal/data/bench_parser.go    | 5 +++++
 internal/data/warnings_parser.go | 1 +
 2 files changed, 6 insertions(+)

diff --git a/internal/data/bench_parser.go b/internal/data/bench_parser.go
index cd8e573..37bcc7a 100644
--- a/internal/data/bench_parser.go
+++ b/internal/data/bench_parser.go
@@ -18,6 +18,10 @@ var (
 	ptnMbSec      = regexp.MustCompile(`\s(\d+(?:\.\d+)?)\s+MB/s`)
 )
 
+// maxLineLength limits the length of a single line of input.
+// Warnings contain log records which can be larger than the default limit of a bufio.Scanner.
+const maxLineLength = 64 * 1024 * 1024
+
 // -----------------------------------------------------------------------------
 
 // ParseBenchmarkData parses benchmark data from the output of go -bench.
@@ -38,6 +42,7 @@ func (b *Benchmarks) ParseBenchmarkData(in io.Reader) error {
 		}
 	}
 	scanner := bufio.NewScanner(in)
+	scanner.Buffer(nil, maxLineLength)
 
 	for scanner.Scan() {
 		var ok bool
diff --git a/internal/data/warnings_parser.go b/internal/data/warnings_parser.go
index 03c7563..ecc3b79 100644
--- a/internal/data/warnings_parser.go
+++ b/internal/data/warnings_parser.go
@@ -50,6 +50,7 @@ func (w *Warnings) ParseWarningData(in io.Reader, source string, lookup map[stri
 		}
 	}
 	scanner := bufio.NewScanner(in)
+	scanner.Buffer(nil, maxLineLength)
 
 	var handler HandlerTag
 	var test TestTag
-- 
2.43.0


From 7cde2dfb5978471bedfd24f6220d1b5e218337bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:14 +0000
Subject: [PATCH 23/63] fix: benchmark warnings are dropped when verification
 has none for the handler

---
 internal/data/warnings_parser.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/internal/data/warnings_parser.go b/internal/data/warnings_parser.go
index ecc3b79..d39af09 100644
--- a/internal/data/warnings_parser.go
+++ b/internal/data/warnings_parser.go
@@ -149,9 +149,12 @@ func (w *Warnings) ParseWarningData(in io.Reader, source string, lookup map[stri
 		}
 		if ptnNone.Match(line) {
 			// Minimal amount of data to support score chart.
-			w.ByHandler[handler] = &Levels{
-				lookup: make(map[string]*DataLevel),
-				levels: make([]*DataLevel, 0),
+			// Don't lose warnings that were parsed from another source.
+			if _, found := w.ByHandler[handler]; !found {
+				w.ByHandler[handler] = &Levels{
+					lookup: make(map[string]*DataLevel),
+					levels: make([]*DataLevel, 0),
+				}
 			}
 			continue
 		}
-- 
2.43.0


From b78cf620a1aacb2e059f584659a202b5e8136543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:15 +0000
Subject: [PATCH 24/63] fix: parsing warnings panics on a log line without a
 warning

---
 internal/data/warnings_parser.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/data/warnings_parser.go b/internal/data/warnings_parser.go
index d39af09..eefc860 100644
--- a/internal/data/warnings_parser.go
+++ b/internal/data/warnings_parser.go
@@ -177,6 +177,10 @@ func (w *Warnings) ParseWarningData(in io.Reader, source string, lookup map[stri
 		}
 		// Do this before ptnInstance as they can otherwise get confused.
 		if ptnLogLine.Match(line) {
+			if instance == nil {
+				// This log line doesn't belong to a warning.
+				continue
+			}
 			instance.line = string(line)
 			// Attempt to pretty-print the log line.
 			var jm map[string]any
-- 
2.43.0


From 301b656657e0e75d7ec11f67388eee9fd0ac70c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:16 +0000
Subject: [PATCH 25/63] fix: a bracket in a warning summary becomes part of the
 warning name

---
 internal/data/warnings_parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/data/warnings_parser.go b/internal/data/warnings_parser.go
index eefc860..3140ce0 100644
--- a/internal/data/warnings_parser.go
+++ b/internal/data/warnings_parser.go
@@ -20,7 +20,7 @@ import (
 var (
 	ptnWarningsFor  = regexp.MustCompile(`^\s*Warnings\s+for\s+(.*):\s*$`)
 	ptnLevel        = regexp.MustCompile(`^\s*(\S+)\s*$`)
-	ptnWarning      = regexp.MustCompile(`^\s*\d+\s+\[(.*)]\s*(.*?)\s*$`)
+	ptnWarning      = regexp.MustCompile(`^\s*\d+\s+\[(.*?)]\s*(.*?)\s*$`)
 	ptnInstance     = regexp.MustCompile(`^\s*(\S+)(?::\s*(.*?))?\s*$`)
 	ptnExtra        = regexp.MustCompile(`^\s*\+(.*?)\s*$`)
 	ptnLogLine      = regexp.MustCompile(`^\s*\{`)
-- 
2.43.0


From 302f869c761fdc535a46581f187fc970de468694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:16 +0000
Subject: [PATCH 26/63] fix: an empty line in a handler summary loses the rest
 of it and the links

---
 internal/data/warnings_parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/data/warnings_parser.go b/internal/data/warnings_parser.go
index 3140ce0..baa7f08 100644
--- a/internal/data/warnings_parser.go
+++ b/internal/data/warnings_parser.go
@@ -27,7 +27,7 @@ var (
 	ptnNone         = regexp.MustCompile(`^\s*None\s*$`)
 	ptnByWarning    = regexp.MustCompile(`^\s*Handlers\s+by\s+warning:\s*$`)
 	ptnSummaryStart = regexp.MustCompile(`^:\[\s*(\S.*?)\s*$`)
-	ptnSummaryLine  = regexp.MustCompile(`^::\s*(\S.*?)\s*$`)
+	ptnSummaryLine  = regexp.MustCompile(`^::\s*(.*?)\s*$`)
 	ptnSummaryLink  = regexp.MustCompile(`^:>\s*(\S.*?)\s*-->\s*(\S.*?)\s*$`)
 	ptnSummaryEnd   = regexp.MustCompile(`^:]\s*$`)
 )
-- 
2.43.0


From f9a8da71b3a013fd39678439c1053f4293c75bd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:17 +0000
Subject: [PATCH 27/63] fix: counting a warning which never occurred panics

---
 internal/data/warnings.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/internal/data/warnings.go b/internal/data/warnings.go
index 9390806..6a45942 100644
--- a/internal/data/warnings.go
+++ b/internal/data/warnings.go
@@ -116,7 +116,10 @@ func (w *Warnings) HandlerTags() []HandlerTag {
 
 // HandlerWarningCount returns the number of the specified warning associated with the specified handler.
 func (w *Warnings) HandlerWarningCount(handler HandlerTag, warning *warning.Warning) uint {
-	return w.ByWarning[warning.Name].Count[handler]
+	if data, found := w.ByWarning[warning.Name]; found {
+		return data.Count[handler]
+	}
+	return 0
 }
 
 // HasTest returns true if a test is defined with the specified tag.
-- 
2.43.0


From 49f32506e864084bf8a9d7c85b11283a0b88cec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:18 +0000
Subject: [PATCH 28/63] fix: separator at the end of a source is not recognized

---
 internal/data/warnings.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/data/warnings.go b/internal/data/warnings.go
index 6a45942..d6c781e 100644
--- a/internal/data/warnings.go
+++ b/internal/data/warnings.go
@@ -163,7 +163,7 @@ func (w *Warnings) TestTags() []TestTag {
 
 // TestTagsForSource returns an array of all test names for the specified source sorted alphabetically.
 func (w *Warnings) TestTagsForSource(source string) []TestTag {
-	if !strings.HasSuffix(source, ":") {
+	if !strings.HasSuffix(source, TagSeparator) {
 		source += TagSeparator
 	}
 	result := make([]TestTag, 0, len(w.TestTags())) // Causes w.tests to be loaded
-- 
2.43.0


From bb156286ed0df17d9ba5d446f94168e0de556f08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:48 +0000
Subject: [PATCH 29/63] fix: log lines of warnings are not shown when they are
 not valid JSON

---
 internal/data/warnings.go        | 2 +-
 internal/data/warnings_parser.go | 1 +
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/data/warnings.go b/internal/data/warnings.go
index d6c781e..af3837b 100644
--- a/internal/data/warnings.go
+++ b/internal/data/warnings.go
@@ -456,7 +456,7 @@ func (di *dataInstance) Line() string {
 }
 
 func (di *dataInstance) HasLog() bool {
-	return len(strings.Trim(di.log, " ")) > 0
+	return len(strings.Trim(di.Log(), " ")) > 0
 }
 
 func (di *dataInstance) Log() string {
diff --git a/internal/data/warnings_parser.go b/internal/data/warnings_parser.go
index baa7f08..5adee83 100644
--- a/internal/data/warnings_parser.go
+++ b/internal/data/warnings_parser.go
@@ -69,6 +69,7 @@ func (w *Warnings) ParseWarningData(in io.Reader, source string, lookup map[stri
 					&dataInstance{
 						name:  handler.Name(),
 						extra: instance.extra,
+						line:  instance.line,
 						log:   instance.log,
 					})
 				wd := w.FindWarning(dWarning.warning.name)
-- 
2.43.0


From a172734e7eed1006454f1270aa6f24fe81c1fd0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:49 +0000
Subject: [PATCH 30/63] fix: concurrent server requests race on names and lists
 made when first needed

---
 internal/data/bench.go    |  8 +++++++
 internal/data/tags.go     | 30 ++++++++++++++------------
 internal/data/warnings.go | 44 +++++++++++++++++++++++++++------------
 3 files changed, 56 insertions(+), 26 deletions(-)

diff --git a/internal/data/bench.go b/internal/data/bench.go
index d51e926..98090d5 100644
--- a/internal/data/bench.go
+++ b/internal/data/bench.go
@@ -4,6 +4,7 @@ import (
 	"flag"
 	"log/slog"
 	"sort"
+	"sync"
 )
 
 var benchFile = flag.String("bench", "", "Load benchmark data from path (optional)")
@@ -68,6 +69,7 @@ type Benchmarks struct {
 	handlerNames map[HandlerTag]string
 	warningText  []byte
 	lookup       map[string]HandlerTag
+	listLock     sync.Mutex // protects lists and maps that are made when first needed
 }
 
 func NewBenchmarks() *Benchmarks {
@@ -100,6 +102,8 @@ func (b *Benchmarks) HasTest(tag TestTag) bool {
 // where it will be used to convert handler names to tags.
 // This makes all handler tags the same between Benchmarks and Warnings.
 func (b *Benchmarks) HandlerLookup() map[string]HandlerTag {
+	b.listLock.Lock()
+	defer b.listLock.Unlock()
 	if b.lookup == nil {
 		b.lookup = make(map[string]HandlerTag, len(b.handlerNames))
 		for tag, name := range b.handlerNames {
@@ -126,6 +130,8 @@ func (b *Benchmarks) HandlerRecordsFor(test TestTag) HandlerRecords {
 
 // HandlerTags returns an array of all handler tags sorted alphabetically.
 func (b *Benchmarks) HandlerTags() []HandlerTag {
+	b.listLock.Lock()
+	defer b.listLock.Unlock()
 	if b.handlers == nil {
 		for handler := range b.ByHandler {
 			b.handlers = append(b.handlers, handler)
@@ -154,6 +160,8 @@ func (b *Benchmarks) TestRecordsFor(handler HandlerTag) TestRecords {
 
 // TestTags returns an array of all test names sorted alphabetically.
 func (b *Benchmarks) TestTags() []TestTag {
+	b.listLock.Lock()
+	defer b.listLock.Unlock()
 	if b.tests == nil {
 		for test := range b.byTest {
 			b.tests = append(b.tests, test)
diff --git a/internal/data/tags.go b/internal/data/tags.go
index 1c31fc1..7d67697 100644
--- a/internal/data/tags.go
+++ b/internal/data/tags.go
@@ -2,6 +2,7 @@ package data
 
 import (
 	"strings"
+	"sync"
 
 	"github.com/fatih/camelcase"
 )
@@ -17,12 +18,14 @@ const TagSeparator = "."
 // The type is an alias for string so that types can't be confused.
 type TestTag string
 
-var testTagNames = make(map[TestTag]string)
+// testTagNames caches names by TestTag. It is used by concurrent server requests.
+var testTagNames sync.Map
 
 // Name returns a name string calculated from the TestTag string and cached for reuse.
 func (tt TestTag) Name() string {
-	name, found := testTagNames[tt]
-	if !found {
+	if name, found := testTagNames.Load(tt); found {
+		return name.(string)
+	} else {
 		var builder strings.Builder
 		tagString := string(tt)
 		if parts := strings.Split(string(tt), TagSeparator); len(parts) == 2 {
@@ -34,11 +37,10 @@ func (tt TestTag) Name() string {
 			}
 			builder.WriteString(part)
 		}
-		name = builder.String()
-		testTagNames[tt] = name
+		name := builder.String()
+		testTagNames.Store(tt, name)
+		return name
 	}
-	return name
-
 }
 
 // -----------------------------------------------------------------------------
@@ -47,12 +49,14 @@ func (tt TestTag) Name() string {
 // The type is an alias for string so that types can't be confused.
 type HandlerTag string
 
-var handlerTagNames = make(map[HandlerTag]string)
+// handlerTagNames caches names by HandlerTag. It is used by concurrent server requests.
+var handlerTagNames sync.Map
 
 // Name returns a name string calculated from the HandlerTag string and cached for reuse.
 func (ht HandlerTag) Name() string {
-	name, found := handlerTagNames[ht]
-	if !found {
+	if name, found := handlerTagNames.Load(ht); found {
+		return name.(string)
+	} else {
 		var builder strings.Builder
 		tagString := string(ht)
 		for _, part := range camelcase.Split(tagString) {
@@ -61,8 +65,8 @@ func (ht HandlerTag) Name() string {
 			}
 			builder.WriteString(part)
 		}
-		name = builder.String()
-		handlerTagNames[ht] = name
+		name := builder.String()
+		handlerTagNames.Store(ht, name)
+		return name
 	}
-	return name
 }
diff --git a/internal/data/warnings.go b/internal/data/warnings.go
index af3837b..14c8c98 100644
--- a/internal/data/warnings.go
+++ b/internal/data/warnings.go
@@ -7,6 +7,7 @@ import (
 	"regexp"
 	"sort"
 	"strings"
+	"sync"
 
 	"github.com/madkins23/go-slog/infra/warning"
 	"github.com/madkins23/go-slog/internal/markdown"
@@ -31,6 +32,7 @@ type Warnings struct {
 	handlers    []HandlerTag
 	handlerData map[HandlerTag]*handlerData
 	testNames   map[TestTag]string
+	listLock    sync.Mutex // protects lists and maps that are made when first needed
 }
 
 func NewWarnings() *Warnings {
@@ -103,6 +105,8 @@ func (w *Warnings) HandlerLinks(handler HandlerTag) map[string]string {
 
 // HandlerTags returns an array of all handler names sorted alphabetically.
 func (w *Warnings) HandlerTags() []HandlerTag {
+	w.listLock.Lock()
+	defer w.listLock.Unlock()
 	if len(w.handlers) < 1 {
 		for handler := range w.ByHandler {
 			w.handlers = append(w.handlers, handler)
@@ -116,6 +120,8 @@ func (w *Warnings) HandlerTags() []HandlerTag {
 
 // HandlerWarningCount returns the number of the specified warning associated with the specified handler.
 func (w *Warnings) HandlerWarningCount(handler HandlerTag, warning *warning.Warning) uint {
+	w.listLock.Lock()
+	defer w.listLock.Unlock()
 	if data, found := w.ByWarning[warning.Name]; found {
 		return data.Count[handler]
 	}
@@ -150,6 +156,8 @@ func (w *Warnings) TestRecordsFor(handler HandlerTag) *Levels {
 
 // TestTags returns an array of all handler names sorted alphabetically.
 func (w *Warnings) TestTags() []TestTag {
+	w.listLock.Lock()
+	defer w.listLock.Unlock()
 	if len(w.tests) < 1 {
 		for test := range w.byTest {
 			w.tests = append(w.tests, test)
@@ -166,8 +174,9 @@ func (w *Warnings) TestTagsForSource(source string) []TestTag {
 	if !strings.HasSuffix(source, TagSeparator) {
 		source += TagSeparator
 	}
-	result := make([]TestTag, 0, len(w.TestTags())) // Causes w.tests to be loaded
-	for _, test := range w.tests {
+	tests := w.TestTags()
+	result := make([]TestTag, 0, len(tests))
+	for _, test := range tests {
 		if strings.HasPrefix(string(test), source) {
 			result = append(result, test)
 		}
@@ -207,6 +216,8 @@ func (w *Warnings) findTest(test TestTag, level warning.Level, warningName strin
 //
 // This method is public so that it can be used during template expansion in cmd/server.
 func (w *Warnings) FindWarning(name string) *WarningData {
+	w.listLock.Lock()
+	defer w.listLock.Unlock()
 	data, found := w.ByWarning[name]
 	if !found {
 		data = &WarningData{
@@ -241,6 +252,7 @@ type WarningData struct {
 	handlers []HandlerTag
 	testMap  map[TestTag]bool
 	tests    []TestTag
+	listLock sync.Mutex
 }
 
 func (wd *WarningData) HasHandlers() bool {
@@ -248,6 +260,8 @@ func (wd *WarningData) HasHandlers() bool {
 }
 
 func (wd *WarningData) Handlers() []HandlerTag {
+	wd.listLock.Lock()
+	defer wd.listLock.Unlock()
 	if wd.handlers == nil {
 		wd.handlers = make([]HandlerTag, 0, len(wd.hdlrMap))
 		for key := range wd.hdlrMap {
@@ -264,6 +278,8 @@ func (wd *WarningData) HasTests() bool {
 }
 
 func (wd *WarningData) Tests() []TestTag {
+	wd.listLock.Lock()
+	defer wd.listLock.Unlock()
 	if wd.tests == nil {
 		wd.tests = make([]TestTag, 0, len(wd.testMap))
 		for key := range wd.testMap {
@@ -282,8 +298,9 @@ func (wd *WarningData) HasUsage() bool {
 // -----------------------------------------------------------------------------
 
 type Levels struct {
-	lookup map[string]*DataLevel
-	levels []*DataLevel
+	lookup   map[string]*DataLevel
+	levels   []*DataLevel
+	listLock sync.Mutex
 }
 
 func (l *Levels) Level(level warning.Level) *DataLevel {
@@ -299,6 +316,8 @@ func (l *Levels) LevelCount(level warning.Level) uint64 {
 }
 
 func (l *Levels) Levels() []*DataLevel {
+	l.listLock.Lock()
+	defer l.listLock.Unlock()
 	if len(l.levels) < 1 {
 		l.levels = make([]*DataLevel, 0, len(warning.LevelOrder))
 		for _, lvl := range warning.LevelOrder {
@@ -328,6 +347,7 @@ type DataLevel struct {
 	Level    warning.Level
 	lookup   map[string]*dataWarning
 	warnings []*dataWarning
+	listLock sync.Mutex
 }
 
 func (l *DataLevel) Count() uint64 {
@@ -343,6 +363,8 @@ func (l *DataLevel) String() string {
 }
 
 func (l *DataLevel) Warnings() []*dataWarning {
+	l.listLock.Lock()
+	defer l.listLock.Unlock()
 	if l.warnings == nil {
 		l.warnings = make([]*dataWarning, 0, len(l.lookup))
 		for _, w := range l.lookup {
@@ -372,10 +394,10 @@ func (l *DataLevel) findWarningGroup(warningName string) *dataWarning {
 type dataWarning struct {
 	warning struct {
 		name, summary string
-		instance      *warning.Warning
 	}
 	instances []*dataInstance
 	sorted    bool
+	sortLock  sync.Mutex
 }
 
 func (w *dataWarning) Name() string {
@@ -383,17 +405,11 @@ func (w *dataWarning) Name() string {
 }
 
 func (w *dataWarning) HasDescription() bool {
-	if w.warning.instance == nil {
-		w.warning.instance = warning.ByName(w.warning.name)
-	}
-	return w.warning.instance.HasDescription()
+	return warning.ByName(w.warning.name).HasDescription()
 }
 
 func (w *dataWarning) Description() template.HTML {
-	if w.warning.instance == nil {
-		w.warning.instance = warning.ByName(w.warning.name)
-	}
-	return w.warning.instance.Description()
+	return warning.ByName(w.warning.name).Description()
 }
 
 func (w *dataWarning) Summary() string {
@@ -405,6 +421,8 @@ func (w *dataWarning) AddInstance(instance *dataInstance) {
 }
 
 func (w *dataWarning) Instances() []*dataInstance {
+	w.sortLock.Lock()
+	defer w.sortLock.Unlock()
 	if !w.sorted {
 		sort.Slice(w.instances, func(i, j int) bool {
 			return w.instances[i].name < w.instances[j].name
-- 
2.43.0


From aded32cb9966fd28638d4a1bc779bd855e59afb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:01 +0000
Subject: [PATCH 31/63] fix: tests are skipped for warnings even when warnings
 are disabled

---
 infra/warning/manager.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/infra/warning/manager.go b/infra/warning/manager.go
index 2756f48..2b92a9a 100644
--- a/infra/warning/manager.go
+++ b/infra/warning/manager.go
@@ -200,7 +200,7 @@ func (mgr *Manager) SkipTest(because *Warning) {
 // False is returned if none of the warning are found.
 func (mgr *Manager) SkipTestIf(warns ...*Warning) bool {
 	for _, w := range warns {
-		if mgr.warnOnly[w.Name] {
+		if mgr.HasWarning(w) {
 			mgr.AddWarning(SkippingTest, w.Summary, "")
 			mgr.AddWarning(w, SkippingTest.Summary, "")
 			return true
-- 
2.43.0


From 3b7bd28fb6cc7fa6af3b0490d336a5ada642a4b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:01 +0000
Subject: [PATCH 32/63] fix: listing handlers by warning panics when a warning
 is not predefined

---
 infra/warning/manager.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/infra/warning/manager.go b/infra/warning/manager.go
index 2b92a9a..86a5f2c 100644
--- a/infra/warning/manager.go
+++ b/infra/warning/manager.go
@@ -61,6 +61,9 @@ type Instances struct {
 
 	// Data associated with the specific instances of the warning, if any.
 	Data []Instance
+
+	// warning that was added.
+	warning *Warning
 }
 
 // Instance encapsulates data for a specific warning instance.
@@ -150,6 +153,7 @@ func (mgr *Manager) AddWarningFnText(w *Warning, fnName string, text string, log
 			Level:   w.Level,
 			Name:    w.Name,
 			Summary: w.Summary,
+			warning: w,
 		}
 		mgr.warnings[w.Name] = record
 	}
@@ -306,7 +310,10 @@ func (mgr *Manager) ShowWarnings(output io.Writer) {
 				_, _ = fmt.Fprintf(output, "%s  %s\n", mgr.showPrefix, level.String())
 				for _, w := range list {
 					// Track handlers that invoke warning for use in TestMain.
-					warn := mgr.predefined[w.Name]
+					warn, found := mgr.predefined[w.Name]
+					if !found {
+						warn = w.warning
+					}
 					if byWarning[warn] == nil {
 						byWarning[warn] = make(map[string]bool)
 					}
-- 
2.43.0


From 0034b495fa5c085b744b8a083555f35d09ded299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:02 +0000
Subject: [PATCH 33/63] fix: handlers by warning are listed in random order

---
 infra/warning/manager.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/infra/warning/manager.go b/infra/warning/manager.go
index 86a5f2c..14cb5b0 100644
--- a/infra/warning/manager.go
+++ b/infra/warning/manager.go
@@ -369,6 +369,7 @@ func ShowHandlersByWarning(showPrefix string) {
 				for handler := range handlers {
 					hdlrNames = append(hdlrNames, handler)
 				}
+				sort.Strings(hdlrNames)
 				for _, hdlrName := range hdlrNames {
 					fmt.Printf("%s      %s\n", showPrefix, hdlrName)
 				}
-- 
2.43.0


From 5654036945f4edebbe942a5f53cbaa58288f84d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:08 +0000
Subject: [PATCH 34/63] fix: log lines are shown without their duplicate fields
 and with rounded numbers

---
 internal/data/warnings_parser.go | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/internal/data/warnings_parser.go b/internal/data/warnings_parser.go
index 5adee83..ee2cd5b 100644
--- a/internal/data/warnings_parser.go
+++ b/internal/data/warnings_parser.go
@@ -184,11 +184,10 @@ func (w *Warnings) ParseWarningData(in io.Reader, source string, lookup map[stri
 			}
 			instance.line = string(line)
 			// Attempt to pretty-print the log line.
-			var jm map[string]any
-			if json.Unmarshal(line, &jm) == nil {
-				if indented, err := json.MarshalIndent(jm, "", "\t"); err == nil {
-					instance.log = string(indented)
-				}
+			// Don't unmarshal it as this would lose duplicate fields and digits of numbers.
+			var indented bytes.Buffer
+			if json.Indent(&indented, line, "", "\t") == nil {
+				instance.log = indented.String()
 			}
 			continue
 		}
-- 
2.43.0


From f5c3ab6b4da4bded022d12cd9522eb9a4ef8e0a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:09 +0000
Subject: [PATCH 35/63] fix: test tags of warnings end in a colon when the
 first line of the text is empty

---
 internal/data/warnings_parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/data/warnings_parser.go b/internal/data/warnings_parser.go
index ee2cd5b..ac2090a 100644
--- a/internal/data/warnings_parser.go
+++ b/internal/data/warnings_parser.go
@@ -21,7 +21,7 @@ var (
 	ptnWarningsFor  = regexp.MustCompile(`^\s*Warnings\s+for\s+(.*):\s*$`)
 	ptnLevel        = regexp.MustCompile(`^\s*(\S+)\s*$`)
 	ptnWarning      = regexp.MustCompile(`^\s*\d+\s+\[(.*?)]\s*(.*?)\s*$`)
-	ptnInstance     = regexp.MustCompile(`^\s*(\S+)(?::\s*(.*?))?\s*$`)
+	ptnInstance     = regexp.MustCompile(`^\s*(\S*[^\s:])(?::\s*(.*?))?\s*$`)
 	ptnExtra        = regexp.MustCompile(`^\s*\+(.*?)\s*$`)
 	ptnLogLine      = regexp.MustCompile(`^\s*\{`)
 	ptnNone         = regexp.MustCompile(`^\s*None\s*$`)
-- 
2.43.0


From c9645d7520e433253ccc0446a77dbe2f408bf125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:58 +0000
Subject: [PATCH 36/63] fix: handler names with spaces are lost when parsing
 benchmark output

---
 internal/data/bench_parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/data/bench_parser.go b/internal/data/bench_parser.go
index 37bcc7a..725ec5d 100644
--- a/internal/data/bench_parser.go
+++ b/internal/data/bench_parser.go
@@ -10,7 +10,7 @@ import (
 )
 
 var (
-	ptnHandlerDef = regexp.MustCompile(`^#\s*Handler\[(\S+)\]\s*=\s*"(\S+)"\s*$`)
+	ptnHandlerDef = regexp.MustCompile(`^#\s*Handler\[(\S+)\]\s*=\s*"(.+)"\s*$`)
 	ptnWarnLine   = regexp.MustCompile(`^# (.*)`)
 	ptnDataLine   = regexp.MustCompile(`^Benchmark([^/]+)/Benchmark([^-\s]+)(?:-(\d+))?\s+(\d+)\s+(\d+(?:\.\d+)?)\s+ns/op\b`)
 	ptnAllocsOp   = regexp.MustCompile(`\s(\d+)\s+allocs/op\b`)
-- 
2.43.0


From 5a6bdd98cbcb1c55d85a1eb5eb3f805953dcdcf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:27 +0000
Subject: [PATCH 37/63] fix: rendered Markdown depends on previous and
 concurrent calls

---
 internal/markdown/html.go | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/internal/markdown/html.go b/internal/markdown/html.go
index fbf3c4e..e03e7d2 100644
--- a/internal/markdown/html.go
+++ b/internal/markdown/html.go
@@ -9,13 +9,6 @@ import (
 	"github.com/gomarkdown/markdown/parser"
 )
 
-var renderer *html.Renderer
-
-func init() {
-	// Prebuild the HTML renderer.
-	renderer = html.NewRenderer(html.RendererOptions{Flags: html.HrefTargetBlank})
-}
-
 // TemplateHTML renders Markdown into template.HTML suitable for use in cmd/server.
 // Embedded Markdown in Go code blocks is typically quoted using back quotes ("`")
 // which are used within Markdown for fixed font markup.
@@ -26,11 +19,13 @@ func init() {
 // Set fixCarets to true for use with back quoted strings with carets,
 // false for use with embedded Markdown files containing back quotes.
 func TemplateHTML(md string, fixCarets bool) template.HTML {
-	// Can't pre-build the parser in init(), it fails the second time it's used.
+	// Can't pre-build the parser or the renderer in init().
+	// The parser fails the second time it's used and the renderer remembers heading IDs from previous calls.
 	mdParser := parser.NewWithExtensions(
 		parser.CommonExtensions | parser.AutoHeadingIDs | parser.NoEmptyLineBeforeBlock)
 	if fixCarets {
 		md = strings.Replace(md, "^", "`", -1)
 	}
+	renderer := html.NewRenderer(html.RendererOptions{Flags: html.HrefTargetBlank})
 	return template.HTML(markdown.Render(mdParser.Parse([]byte(md)), renderer))
 }
-- 
2.43.0


From e3cc7fd2855875095f78187f1533911f495e67d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:10 +0000
Subject: [PATCH 38/63] fix: concurrent score pages write the same map of test
 scores and overview text

---
 internal/scoring/axis/common/data.go | 10 ++++++++--
 internal/scoring/score/keeper.go     |  6 ++++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/internal/scoring/axis/common/data.go b/internal/scoring/axis/common/data.go
index a0a8834..854fe8f 100644
--- a/internal/scoring/axis/common/data.go
+++ b/internal/scoring/axis/common/data.go
@@ -1,13 +1,16 @@
 package common
 
 import (
+	"sync"
+
 	"github.com/madkins23/go-slog/internal/data"
 	"github.com/madkins23/go-slog/internal/scoring/score"
 )
 
 type HandlerData struct {
-	byTest map[data.TestTag]*score.Average
-	scores map[score.Type]score.Value
+	byTest     map[data.TestTag]*score.Average
+	byTestLock sync.Mutex
+	scores     map[score.Type]score.Value
 }
 
 func NewHandlerData() *HandlerData {
@@ -18,6 +21,9 @@ func NewHandlerData() *HandlerData {
 }
 
 func (hd *HandlerData) ByTest(test data.TestTag) *score.Average {
+	// This is used by concurrent server requests.
+	hd.byTestLock.Lock()
+	defer hd.byTestLock.Unlock()
 	if hd.byTest[test] == nil {
 		hd.byTest[test] = &score.Average{}
 	}
diff --git a/internal/scoring/score/keeper.go b/internal/scoring/score/keeper.go
index af96567..1398c15 100644
--- a/internal/scoring/score/keeper.go
+++ b/internal/scoring/score/keeper.go
@@ -5,6 +5,7 @@ import (
 	"fmt"
 	"html/template"
 	"sort"
+	"sync"
 
 	"github.com/madkins23/go-slog/internal/data"
 	"github.com/madkins23/go-slog/internal/markdown"
@@ -113,13 +114,14 @@ var (
 	//go:embed doc/overview.md
 	overviewMD   string
 	overviewHTML template.HTML
+	overviewOnce sync.Once
 )
 
 // Overview returns documentation applicable to all scorekeepers.
 func (k *Keeper) Overview() template.HTML {
-	if overviewHTML == "" {
+	overviewOnce.Do(func() {
 		overviewHTML = markdown.TemplateHTML(overviewMD, false)
-	}
+	})
 	return overviewHTML
 }
 
-- 
2.43.0


From 139b264ecafecb5993f1cb819c5c39d5efdc793f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:11 +0000
Subject: [PATCH 39/63] fix: benchmark scores are NaN when handlers have the
 same values

---
 internal/scoring/axis/bench/original.go |  6 ++++--
 internal/scoring/axis/benchmarks.go     | 22 ++++++++++++++++++----
 2 files changed, 22 insertions(+), 6 deletions(-)

diff --git a/internal/scoring/axis/bench/original.go b/internal/scoring/axis/bench/original.go
index bbf18d1..7d85892 100644
--- a/internal/scoring/axis/bench/original.go
+++ b/internal/scoring/axis/bench/original.go
@@ -71,8 +71,10 @@ func (o *Original) HandlerTest(test data.TestTag, record data.TestRecord) {
 		o.collect += score.Value(float64(o.weight[Nanoseconds]) * 100.0 * (rngTest.nanosHigh - record.NanosPerOp) / scoreRange)
 		o.count += o.weight[Nanoseconds]
 	}
-	o.total += o.collect / score.Value(o.count)
-	o.tests++
+	if o.count > 0 {
+		o.total += o.collect / score.Value(o.count)
+		o.tests++
+	}
 }
 
 // CheckRanges checks the ranges contained in this Original object to the ranges
diff --git a/internal/scoring/axis/benchmarks.go b/internal/scoring/axis/benchmarks.go
index 2ed837a..bf0598d 100644
--- a/internal/scoring/axis/benchmarks.go
+++ b/internal/scoring/axis/benchmarks.go
@@ -89,6 +89,7 @@ func (b *Benchmarks) Setup(benchMarks *data.Benchmarks, _ *data.Warnings) error
 			b.handlerData[handler] = bench.NewHandlerData()
 			handlerData = b.handlerData[handler]
 		}
+		inScope := false
 		for test, record := range benchMarks.ByHandler[handler] {
 			if testTags[test] {
 				// Original calculation.
@@ -105,10 +106,21 @@ func (b *Benchmarks) Setup(benchMarks *data.Benchmarks, _ *data.Warnings) error
 						handlerData.SubScore(weight).Add(ranged)
 					}
 				}
-				// Newer algorithm.
-				handlerData.Rollup(bench.OverTests).Add(handlerData.ByTest(test).Average())
-				original.CheckTest(handlerData, test)
+				inScope = true
+				// Tests in which all handlers are the same don't have a score.
+				if handlerData.ByTest(test).Count > 0 {
+					// Newer algorithm.
+					handlerData.Rollup(bench.OverTests).Add(handlerData.ByTest(test).Average())
+					original.CheckTest(handlerData, test)
+				}
+			}
+		}
+		if inScope && handlerData.Rollup(bench.OverTests).Count == 0 {
+			// If we're all the same (the score ranges are essentially zero) we all get 100%.
+			for _, scoreType := range score.TypeValues() {
+				handlerData.SetScore(scoreType, 100.0)
 			}
+			continue
 		}
 		// Original calculation.
 		handlerData.SetScore(score.Original, original.Score())
@@ -116,7 +128,9 @@ func (b *Benchmarks) Setup(benchMarks *data.Benchmarks, _ *data.Warnings) error
 		handlerData.SetScore(score.ByTest, handlerData.Rollup(bench.OverTests).Average())
 		// Newer algorithm rollup over BenchWeight subs
 		for _, weight := range bench.WeightOrder {
-			handlerData.Rollup(bench.OverData).AddMultiple(handlerData.SubScore(weight).Average(), b.benchWeight[weight])
+			if subScore := handlerData.SubScore(weight); subScore.Count > 0 {
+				handlerData.Rollup(bench.OverData).AddMultiple(subScore.Average(), b.benchWeight[weight])
+			}
 		}
 		handlerData.SetScore(score.ByData, handlerData.Rollup(bench.OverData).Average())
 		original.CheckTotal(handlerData)
-- 
2.43.0


From 565c47df2584165fbd12e6614d39e1b3533dd636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:31 +0000
Subject: [PATCH 40/63] fix: warning text is shown as markup on server pages

---
 internal/data/warnings.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/internal/data/warnings.go b/internal/data/warnings.go
index 14c8c98..c7ce8f8 100644
--- a/internal/data/warnings.go
+++ b/internal/data/warnings.go
@@ -459,7 +459,11 @@ func (di *dataInstance) ExtraHTML() template.HTML {
 				// Error from slog/slogtest.
 				line = fmt.Sprintf(
 					"%s<br/><a href=\"%s/%s;l=%s\">%s</a>",
-					matches[1], srcRoot, matches[3], matches[4], matches[2])
+					template.HTMLEscapeString(matches[1]), srcRoot,
+					template.HTMLEscapeString(matches[3]), matches[4],
+					template.HTMLEscapeString(matches[2]))
+			} else {
+				line = template.HTMLEscapeString(line)
 			}
 			lines[i] = "<p>" + line + "</p>"
 		}
-- 
2.43.0


From 028d365869c0e125f6077c61a8b342d71bc0ff99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:32 +0000
Subject: [PATCH 41/63] fix: text files and their paths are shown as markup

---
 cmd/server/text.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmd/server/text.go b/cmd/server/text.go
index f182c8e..55993c6 100644
--- a/cmd/server/text.go
+++ b/cmd/server/text.go
@@ -39,7 +39,7 @@ func NewTextCache(items ...*TextItem) *TextCache {
 			slog.Warn("Unable to load text file",
 				"Path", item.Path, "error", err.Error())
 		} else if len(data) > 0 {
-			item.Data = template.HTML(data)
+			item.Data = template.HTML(template.HTMLEscapeString(string(data)))
 			tc.cache[item.Name] = item
 			tc.names = append(tc.names, item.Name)
 		} else {
@@ -65,7 +65,7 @@ func (tc *TextCache) TextItem(path string) *TextItem {
 		item = &TextItem{
 			Path:    path,
 			Summary: "Text Not Found",
-			Data:    template.HTML("Path: " + path),
+			Data:    template.HTML("Path: " + template.HTMLEscapeString(path)),
 		}
 	}
 	return item
-- 
2.43.0


From 825f1d68442a5771efd3efbafcf79896adcdc21c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:52 +0000
Subject: [PATCH 42/63] fix: titles of handler and test pages show names as
 markup

---
 cmd/server/pages/handler.gohtml | 2 +-
 cmd/server/pages/test.gohtml    | 2 +-
 cmd/server/pages/text.gohtml    | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/cmd/server/pages/handler.gohtml b/cmd/server/pages/handler.gohtml
index fd8d073..31a0fee 100644
--- a/cmd/server/pages/handler.gohtml
+++ b/cmd/server/pages/handler.gohtml
@@ -9,7 +9,7 @@
 <div class="wrapper">
   <div class="header">
     {{ $name := .Benchmarks.HandlerName .Handler }}
-    {{ template "partHeader" dict "top" $ "title" (printf "Handler <span class=\"fixed\">%s</span>" $name) }}
+    {{ template "partHeader" dict "top" $ "title" (printf "Handler <span class=\"fixed\">%s</span>" (html $name)) }}
   </div>
   <div class="content">
     <div>
diff --git a/cmd/server/pages/test.gohtml b/cmd/server/pages/test.gohtml
index d413c83..3df55b3 100644
--- a/cmd/server/pages/test.gohtml
+++ b/cmd/server/pages/test.gohtml
@@ -14,7 +14,7 @@
     {{ else }}
       {{ $name = .Warnings.TestName .Test }}
     {{ end }}
-    {{ template "partHeader" dict "top" $ "title" (printf "Test <span class=\"fixed\">%s</span>" $name) }}
+    {{ template "partHeader" dict "top" $ "title" (printf "Test <span class=\"fixed\">%s</span>" (html $name)) }}
   </div>
   <div class="content">
     <div>
diff --git a/cmd/server/pages/text.gohtml b/cmd/server/pages/text.gohtml
index 8adcaf0..22b06c5 100644
--- a/cmd/server/pages/text.gohtml
+++ b/cmd/server/pages/text.gohtml
@@ -8,7 +8,7 @@
 <body>
 <div class="wrapper">
   <div class="header">
-    {{ template "partHeader" dict "top" $ "title" (printf "Text File <span class=\"fixed\">%s</span>" $.Item.Name) }}
+    {{ template "partHeader" dict "top" $ "title" (printf "Text File <span class=\"fixed\">%s</span>" (html $.Item.Name)) }}
   </div>
   <div class="text-summary">{{ $.Item.Summary }}</div>
   <div class="text">{{ $.Item.Data }}</div>
-- 
2.43.0


From 9b2c2a01874e3dc128d69a1a6af979d31b64377a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:53 +0000
Subject: [PATCH 43/63] fix: log buttons of warnings for the same test all
 toggle the first log

---
 cmd/server/parts/warnings.gohtml | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/server/parts/warnings.gohtml b/cmd/server/parts/warnings.gohtml
index 5a235cd..8f87301 100644
--- a/cmd/server/parts/warnings.gohtml
+++ b/cmd/server/parts/warnings.gohtml
@@ -29,7 +29,7 @@
                 <td colspan=3>
                   <table class="instance">
                     {{ range $index, $instance := $warning.Instances }}
-                      {{ $id := printf "%v-%v" $warning.Name $instance.Name }}
+                      {{ $id := printf "%v-%v-%v" $warning.Name $instance.Name $index }}
                       {{ if eq (mod $index 2) 0 }}
                         {{ $color = "cornsilk" }}
                       {{ else }}
-- 
2.43.0


From 7063dcbee80958291b4291f6657266e4cf87d109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:53 +0000
Subject: [PATCH 44/63] fix: bar charts of unknown tests, handlers and items
 panic or are empty

---
 cmd/server/chart/bar.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/cmd/server/chart/bar.go b/cmd/server/chart/bar.go
index b0e74ce..087b021 100644
--- a/cmd/server/chart/bar.go
+++ b/cmd/server/chart/bar.go
@@ -17,7 +17,7 @@ func Bar(c *gin.Context, bench *data.Benchmarks) {
 	item, err := data.BenchItemsString(itemArg)
 	if err != nil {
 		slog.Error("Bad URL parameter", "param", itemArg, "err", err)
-		// TODO: what to do here?
+		c.String(http.StatusBadRequest, "%s", "No chart for "+itemArg)
 		return
 	}
 	tag := c.Param("tag")
@@ -34,9 +34,7 @@ func Bar(c *gin.Context, bench *data.Benchmarks) {
 			labels, values = chartHandler(bench, records, item)
 		} else {
 			slog.Error("Neither handler nor benchmark records found", "fn", "chartFunction")
-			c.HTML(http.StatusBadRequest, "pageFunction", gin.H{
-				"ErrorTitle":   "Template failed execution",
-				"ErrorMessage": "No records for " + tag})
+			c.String(http.StatusBadRequest, "%s", "No records for "+tag)
 			return
 		}
 		const verticalPadding = 100
-- 
2.43.0


From 1ff4e7cec40a24f888c971a4b5198d28b3d59709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:54 +0000
Subject: [PATCH 45/63] fix: score charts of unknown score keepers panic

---
 cmd/server/chart/score.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/cmd/server/chart/score.go b/cmd/server/chart/score.go
index ab655b1..dc1a4f3 100644
--- a/cmd/server/chart/score.go
+++ b/cmd/server/chart/score.go
@@ -127,6 +127,11 @@ func Score(c *gin.Context, warns *data.Warnings) {
 	ch, found := Cache[cacheKey]
 	CacheMutex.Unlock()
 	keeper := score.GetKeeper(score.KeeperTag(c.Param("keeper")))
+	if keeper == nil {
+		slog.Error("No Keeper", "param", c.Param("keeper"))
+		c.String(http.StatusBadRequest, "%s", "No scores for "+c.Param("keeper"))
+		return
+	}
 	chartData := newChartData(keeper, warns, sizes[size])
 	if !found {
 		graph := chartData.generate()
-- 
2.43.0


From b843918f478789ec16030700275d72fee87c39c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:54 +0000
Subject: [PATCH 46/63] fix: order of handlers with the same score in score
 charts is random

---
 cmd/server/chart/score.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/cmd/server/chart/score.go b/cmd/server/chart/score.go
index dc1a4f3..c217e71 100644
--- a/cmd/server/chart/score.go
+++ b/cmd/server/chart/score.go
@@ -293,8 +293,9 @@ func (cd *scoreChartData) annotations() []chart.Value2 {
 
 // dataMarkers generates chart points and labels to represent score values.
 func (cd *scoreChartData) dataMarkers() {
-	for hdlr, coords := range cd.handlers {
-		if coords.y > 0.00001 {
+	// Handlers are taken in order so that the chart is always the same.
+	for _, hdlr := range cd.keeper.HandlerTags() {
+		if coords, found := cd.handlers[hdlr]; found && coords.y > 0.00001 {
 			x := float64(coords.x)
 			y := float64(coords.y)
 			cd.items = append(cd.items, scoreChartDataItem{
@@ -321,8 +322,8 @@ func (cd *scoreChartData) dataMarkers() {
 		top = 100
 	}
 	// Sort data items by decreasing y-value.
-	sort.Slice(cd.items, func(i, j int) bool {
-		return cd.items[i].y >= cd.items[j].y
+	sort.SliceStable(cd.items, func(i, j int) bool {
+		return cd.items[i].y > cd.items[j].y
 	})
 	for i, item := range cd.items {
 		cd.series = append(cd.series, chart.ContinuousSeries{
-- 
2.43.0


From ca31cfbbf9e36b1670498fcb24ffaad638ddc9f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:02 +0000
Subject: [PATCH 47/63] fix: first concurrent score charts race to load the
 default font

---
 cmd/server/chart/score.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/cmd/server/chart/score.go b/cmd/server/chart/score.go
index c217e71..895c3f9 100644
--- a/cmd/server/chart/score.go
+++ b/cmd/server/chart/score.go
@@ -117,6 +117,14 @@ var sizes = []*sizeData{
 	},
 }
 
+// init loads the default font which all charts use.
+// The chart package loads it when it is first needed, without protection against concurrent requests.
+func init() {
+	if _, err := chart.GetDefaultFont(); err != nil {
+		slog.Error("Load default font", "err", err)
+	}
+}
+
 // Score generates an SVG chart for the score visualization and
 // uses the gin.Context argument to send the SVG data back to the user's browser.
 func Score(c *gin.Context, warns *data.Warnings) {
-- 
2.43.0


From a9c8bace538a32f1d4109ae032d4fe24b04dbb37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:17 +0000
Subject: [PATCH 48/63] fix: samber/slog-zap handlers follow changes of a level
 variable

---
 creator/samberzap/creator.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/creator/samberzap/creator.go b/creator/samberzap/creator.go
index e2dc348..55d4bde 100644
--- a/creator/samberzap/creator.go
+++ b/creator/samberzap/creator.go
@@ -39,7 +39,10 @@ func handlerFn(w io.Writer, options *slog.HandlerOptions) slog.Handler {
 		Logger: zap.New(zapcore.NewCore(
 			zapcore.NewJSONEncoder(productionCfg),
 			zapcore.AddSync(w),
-			zap.NewAtomicLevelAt(utilzap.ConvertLevelToZap(level.Level())))),
+			// The level may be a slog.LevelVar which changes later on.
+			zap.LevelEnablerFunc(func(zapLevel zapcore.Level) bool {
+				return zapLevel >= utilzap.ConvertLevelToZap(level.Level())
+			}))),
 		Converter:   nil,
 		AddSource:   options.AddSource,
 		ReplaceAttr: options.ReplaceAttr,
-- 
2.43.0


From 5a9431e9486e02b2b07657834c81e99f59ec13b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:17 +0000
Subject: [PATCH 49/63] fix: samber/slog-logrus handlers follow changes of a
 level variable

---
 creator/samberlogrus/creator.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/creator/samberlogrus/creator.go b/creator/samberlogrus/creator.go
index f9ef176..fab2696 100644
--- a/creator/samberlogrus/creator.go
+++ b/creator/samberlogrus/creator.go
@@ -31,7 +31,8 @@ func handlerFn(w io.Writer, options *slog.HandlerOptions) slog.Handler {
 		level = slog.LevelInfo
 	}
 	log := logrus.New()
-	log.SetLevel(utillogrus.ConvertSlogLevel2Logrus(level.Level()))
+	// The handler checks the level, which may be a slog.LevelVar that changes later on.
+	log.SetLevel(utillogrus.ConvertSlogLevel2Logrus(slog.LevelDebug))
 	log.SetOutput(w)
 	log.SetFormatter(&logrus.JSONFormatter{})
 	return slogrus.Option{
-- 
2.43.0


From 67dac382da62f1eb095d8edf25b74c164b14f284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:50 +0000
Subject: [PATCH 50/63] fix: list warnings made after the first listing of
 their level

---
 infra/warning/warning.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/infra/warning/warning.go b/infra/warning/warning.go
index 841b57c..a8bc504 100644
--- a/infra/warning/warning.go
+++ b/infra/warning/warning.go
@@ -60,6 +60,7 @@ func NewWarning(level Level, name, summary, description string) *Warning {
 		}
 		allWarnings = append(allWarnings, warning)
 		byName[name] = warning
+		clear(warningTree) // Rebuilt by the next WarningsForLevel call.
 	}
 	return warning
 }
-- 
2.43.0


From c91ed30e4c08f1b527adb61480a3149c61578b99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:56 +0000
Subject: [PATCH 51/63] fix: lock the warnings while looking one up by name

---
 infra/warning/warning.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/infra/warning/warning.go b/infra/warning/warning.go
index a8bc504..2f6dcc0 100644
--- a/infra/warning/warning.go
+++ b/infra/warning/warning.go
@@ -67,6 +67,8 @@ func NewWarning(level Level, name, summary, description string) *Warning {
 
 // ByName returns the warning with the specified name, if any, else nil.
 func ByName(name string) *Warning {
+	warningLock.Lock()
+	defer warningLock.Unlock()
 	return byName[name]
 }
 
-- 
2.43.0


From 5fda58d3e826b7473bf41944df4371ea8b1dd9ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:00 +0000
Subject: [PATCH 52/63] fix: keep warning descriptions with long lines

---
 infra/warning/warning.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/infra/warning/warning.go b/infra/warning/warning.go
index 2f6dcc0..2ef53c9 100644
--- a/infra/warning/warning.go
+++ b/infra/warning/warning.go
@@ -117,6 +117,7 @@ func buildTree() {
 func fixDescription(description string) string {
 	prefixSpaces := math.MaxInt
 	scanner := bufio.NewScanner(strings.NewReader(description))
+	scanner.Buffer(nil, len(description)+1)
 	for scanner.Scan() {
 		line := scanner.Text()
 		onlySpaces := true
@@ -134,6 +135,7 @@ func fixDescription(description string) string {
 	}
 	var result bytes.Buffer
 	scanner = bufio.NewScanner(strings.NewReader(description))
+	scanner.Buffer(nil, len(description)+1)
 	for scanner.Scan() {
 		line := scanner.Text()
 		if len(line) > prefixSpaces {
-- 
2.43.0


From 751ef7a5f2e11fb3aca68fd85b9201ceb7ebb721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:56 +0000
Subject: [PATCH 53/63] fix: find the test function however deep in the call
 stack

---
 internal/misc/function.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/internal/misc/function.go b/internal/misc/function.go
index 2459788..3f88d41 100644
--- a/internal/misc/function.go
+++ b/internal/misc/function.go
@@ -12,6 +12,11 @@ import (
 func CurrentFunctionName(prefix string) string {
 	pc := make([]uintptr, 10)
 	n := runtime.Callers(2, pc)
+	for n == len(pc) {
+		// There may be more callers than fit, use a bigger buffer.
+		pc = make([]uintptr, 2*len(pc))
+		n = runtime.Callers(2, pc)
+	}
 	frames := runtime.CallersFrames(pc[:n])
 	more := true
 	for more {
-- 
2.43.0


From 0aa83bb69595444a997edf3fc50fbc32de89e607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:59 +0000
Subject: [PATCH 54/63] fix: count the reported warnings for the score, not
 just the predefined ones

---
 internal/data/warnings.go              | 14 ++++++++++++++
 internal/scoring/axis/warn/original.go | 10 +---------
 internal/scoring/axis/warnings.go      |  9 +--------
 3 files changed, 16 insertions(+), 17 deletions(-)

diff --git a/internal/data/warnings.go b/internal/data/warnings.go
index c7ce8f8..dd7a6b0 100644
--- a/internal/data/warnings.go
+++ b/internal/data/warnings.go
@@ -154,6 +154,20 @@ func (w *Warnings) TestRecordsFor(handler HandlerTag) *Levels {
 	return w.ByHandler[handler]
 }
 
+// CountForLevel returns the number of distinct warnings reported for the specified level
+// over all handlers, including any warnings that are not in the warning registry.
+func (w *Warnings) CountForLevel(level warning.Level) uint {
+	names := make(map[string]bool)
+	for _, levels := range w.ByHandler {
+		if dataLevel := levels.Level(level); dataLevel != nil {
+			for name := range dataLevel.lookup {
+				names[name] = true
+			}
+		}
+	}
+	return uint(len(names))
+}
+
 // TestTags returns an array of all handler names sorted alphabetically.
 func (w *Warnings) TestTags() []TestTag {
 	w.listLock.Lock()
diff --git a/internal/scoring/axis/warn/original.go b/internal/scoring/axis/warn/original.go
index e96f0cd..870567b 100644
--- a/internal/scoring/axis/warn/original.go
+++ b/internal/scoring/axis/warn/original.go
@@ -44,15 +44,7 @@ func (o *Original) CheckMaxScore(maxScore uint) {
 
 func (o *Original) MakeMaxScore() {
 	for _, level := range warning.LevelOrder {
-		var count uint
-		for _, warn := range warning.WarningsForLevel(level) {
-			if wx, found := o.warns.ByWarning[warn.Name]; found {
-				if len(wx.Count) > 0 {
-					count++
-				}
-			}
-		}
-		o.maxScore += o.weight[level] * count
+		o.maxScore += o.weight[level] * o.warns.CountForLevel(level)
 	}
 }
 
diff --git a/internal/scoring/axis/warnings.go b/internal/scoring/axis/warnings.go
index 63e34c2..12806b1 100644
--- a/internal/scoring/axis/warnings.go
+++ b/internal/scoring/axis/warnings.go
@@ -55,14 +55,7 @@ func (w *Warnings) Setup(_ *data.Benchmarks, warns *data.Warnings) error {
 	var maxScore uint
 	ranges := make(map[warning.Level]common.Range)
 	for _, level := range warning.LevelOrder {
-		var count uint
-		for _, wrn := range warning.WarningsForLevel(level) {
-			if wx, found := warns.ByWarning[wrn.Name]; found {
-				if len(wx.Count) > 0 {
-					count++
-				}
-			}
-		}
+		count := warns.CountForLevel(level)
 		ranges[level] = &common.RangeUint64{}
 		ranges[level].AddValueUint64(uint64(count))
 		maxScore += w.levelWeight[level] * count
-- 
2.43.0


From 913274b0a7aea9d5177bd3e512686262bcc7723e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:35 +0000
Subject: [PATCH 55/63] fix: show all of a warning text that has a line of Go
 in it

---
 internal/data/warnings.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/data/warnings.go b/internal/data/warnings.go
index dd7a6b0..482f68e 100644
--- a/internal/data/warnings.go
+++ b/internal/data/warnings.go
@@ -464,7 +464,7 @@ func (di *dataInstance) Extra() string {
 const srcRoot = "https://cs.opensource.google/go/go/+/master:src"
 
 // test message: longer description (/snap/go/10535/src/testing/slogtest/slogtest.go:61)
-var ptnCaller = regexp.MustCompile(`^\s*(.+?):(.+?)\s*\(.*/(testing/.*\.go):(\d+)\)`)
+var ptnCaller = regexp.MustCompile(`^\s*(.+?):(.+?)\s*\([^()]*/(testing/[^()]*\.go):(\d+)\)\s*$`)
 
 func (di *dataInstance) ExtraHTML() template.HTML {
 	fix := func(lines []string) []string {
-- 
2.43.0


From 769eb38c734f6c48d168dc756a549e59858922ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:28 +0000
Subject: [PATCH 56/63] fix: asking a field counter for its status no longer
 moves its cursor

---
 internal/json/field.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/json/field.go b/internal/json/field.go
index 8b9cf63..a3cf8b2 100644
--- a/internal/json/field.go
+++ b/internal/json/field.go
@@ -87,8 +87,9 @@ func (ctr *FieldCounter) String() string {
 		builder.WriteRune(r)
 	}
 	builder.WriteString("<^>")
+	ahead := *ctr.reader // Look ahead without moving the parse cursor.
 	for i := 0; i < 15; i++ {
-		if r, err := ctr.readRune(); err == nil {
+		if r, _, err := ahead.ReadRune(); err == nil {
 			if r == '\n' {
 				r = ' '
 			}
-- 
2.43.0


From 8ff7f2bf13eb2fab658447ba9af5b28b74c431da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:17 +0000
Subject: [PATCH 57/63] fix: things of the same name are listed in random order

---
 internal/data/bench.go    | 6 ++++--
 internal/data/warnings.go | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/internal/data/bench.go b/internal/data/bench.go
index 98090d5..5a031b3 100644
--- a/internal/data/bench.go
+++ b/internal/data/bench.go
@@ -137,7 +137,8 @@ func (b *Benchmarks) HandlerTags() []HandlerTag {
 			b.handlers = append(b.handlers, handler)
 		}
 		sort.Slice(b.handlers, func(i, j int) bool {
-			return b.HandlerName(b.handlers[i]) < b.HandlerName(b.handlers[j])
+			nameI, nameJ := b.HandlerName(b.handlers[i]), b.HandlerName(b.handlers[j])
+			return nameI < nameJ || nameI == nameJ && b.handlers[i] < b.handlers[j]
 		})
 	}
 	return b.handlers
@@ -167,7 +168,8 @@ func (b *Benchmarks) TestTags() []TestTag {
 			b.tests = append(b.tests, test)
 		}
 		sort.Slice(b.tests, func(i, j int) bool {
-			return b.TestName(b.tests[i]) < b.TestName(b.tests[j])
+			nameI, nameJ := b.TestName(b.tests[i]), b.TestName(b.tests[j])
+			return nameI < nameJ || nameI == nameJ && b.tests[i] < b.tests[j]
 		})
 	}
 	return b.tests
diff --git a/internal/data/warnings.go b/internal/data/warnings.go
index 482f68e..af1db52 100644
--- a/internal/data/warnings.go
+++ b/internal/data/warnings.go
@@ -112,7 +112,8 @@ func (w *Warnings) HandlerTags() []HandlerTag {
 			w.handlers = append(w.handlers, handler)
 		}
 		sort.Slice(w.handlers, func(i, j int) bool {
-			return w.HandlerName(w.handlers[i]) < w.HandlerName(w.handlers[j])
+			nameI, nameJ := w.HandlerName(w.handlers[i]), w.HandlerName(w.handlers[j])
+			return nameI < nameJ || nameI == nameJ && w.handlers[i] < w.handlers[j]
 		})
 	}
 	return w.handlers
@@ -177,7 +178,8 @@ func (w *Warnings) TestTags() []TestTag {
 			w.tests = append(w.tests, test)
 		}
 		sort.Slice(w.tests, func(i, j int) bool {
-			return w.TestName(w.tests[i]) < w.TestName(w.tests[j])
+			nameI, nameJ := w.TestName(w.tests[i]), w.TestName(w.tests[j])
+			return nameI < nameJ || nameI == nameJ && w.tests[i] < w.tests[j]
 		})
 	}
 	return w.tests
-- 
2.43.0


From f52ac55cba840494b9a63c43e78965f7e32d9551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:26 +0000
Subject: [PATCH 58/63] fix: a score page no longer shows 0 for results which
 are missing

---
 cmd/server/pages/scores.gohtml | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cmd/server/pages/scores.gohtml b/cmd/server/pages/scores.gohtml
index bcf1792..1c6f131 100644
--- a/cmd/server/pages/scores.gohtml
+++ b/cmd/server/pages/scores.gohtml
@@ -170,7 +170,7 @@
                                             {{ range $test := $.Benchmarks.TestTags }}
                                                 {{ if $b.HasTest $test }}
                                                     {{ $data := index $testMap $test }}
-                                                    <td class="number">{{ $.FixFloat (div $data.NanosPerOp 1000.0) 3 }}</td>
+                                                    <td class="number">{{ if $data.Runs }}{{ $.FixFloat (div $data.NanosPerOp 1000.0) 3 }}{{ end }}</td>
                                                 {{ end }}
                                             {{ end }}
                                             {{ range $scoreType := $scoresByData }}
@@ -220,7 +220,7 @@
                                             {{ range $test := $.Benchmarks.TestTags }}
                                                 {{ if $b.HasTest $test }}
                                                     {{ $data := index $testMap $test }}
-                                                    <td class="number">{{ $.FixUint $data.MemAllocsPerOp }}</td>
+                                                    <td class="number">{{ if $data.Runs }}{{ $.FixUint $data.MemAllocsPerOp }}{{ end }}</td>
                                                 {{ end }}
                                             {{ end }}
                                             {{ range $scoreType := $scoresByData }}
@@ -270,7 +270,7 @@
                                             {{ range $test := $.Benchmarks.TestTags }}
                                                 {{ if $b.HasTest $test }}
                                                     {{ $data := index $testMap $test }}
-                                                    <td class="number">{{ $.FixUint $data.MemBytesPerOp }}</td>
+                                                    <td class="number">{{ if $data.Runs }}{{ $.FixUint $data.MemBytesPerOp }}{{ end }}</td>
                                                 {{ end }}
                                             {{ end }}
                                             {{ range $scoreType := $scoresByData }}
-- 
2.43.0


From a67199b6dbfd6557837c04fd72de250581e8cc01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:01 +0000
Subject: [PATCH 59/63] fix: the last digits of a score depend on the order of
 a map

---
 internal/scoring/axis/benchmarks.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/internal/scoring/axis/benchmarks.go b/internal/scoring/axis/benchmarks.go
index bf0598d..ba07ec9 100644
--- a/internal/scoring/axis/benchmarks.go
+++ b/internal/scoring/axis/benchmarks.go
@@ -90,8 +90,10 @@ func (b *Benchmarks) Setup(benchMarks *data.Benchmarks, _ *data.Warnings) error
 			handlerData = b.handlerData[handler]
 		}
 		inScope := false
-		for test, record := range benchMarks.ByHandler[handler] {
-			if testTags[test] {
+		// Tests are taken in order, the last digits of a sum depend on it.
+		for _, test := range benchMarks.TestTags() {
+			record, found := benchMarks.ByHandler[handler][test]
+			if found && testTags[test] {
 				// Original calculation.
 				original.HandlerTest(test, record)
 				// Data ranges for newer calculations.
-- 
2.43.0


From 141e2b378fad03b920b9dc5d7a2d19a00ce790fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:48:03 +0000
Subject: [PATCH 60/63] fix: a name of several benchmark handlers leads to the
 first, in every run

---
 internal/data/bench.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/internal/data/bench.go b/internal/data/bench.go
index 5a031b3..ad1e1da 100644
--- a/internal/data/bench.go
+++ b/internal/data/bench.go
@@ -107,7 +107,10 @@ func (b *Benchmarks) HandlerLookup() map[string]HandlerTag {
 	if b.lookup == nil {
 		b.lookup = make(map[string]HandlerTag, len(b.handlerNames))
 		for tag, name := range b.handlerNames {
-			b.lookup[name] = tag
+			// A name shared by several tags leads to the first of them, whatever the order of the map.
+			if other, found := b.lookup[name]; !found || tag < other {
+				b.lookup[name] = tag
+			}
 		}
 	}
 	return b.lookup
-- 
2.43.0


From 258a7d2d22395e6ac84e9c12361cbef9a8fe1e3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:10:43 +0000
Subject: [PATCH 61/63] fix: warning scores of benchmarked handlers without a
 warning report panic

---
 internal/scoring/axis/warn/original.go |  6 +++++-
 internal/scoring/axis/warnings.go      | 19 ++++++++++++++++---
 2 files changed, 21 insertions(+), 4 deletions(-)

diff --git a/internal/scoring/axis/warn/original.go b/internal/scoring/axis/warn/original.go
index 870567b..f97f7e4 100644
--- a/internal/scoring/axis/warn/original.go
+++ b/internal/scoring/axis/warn/original.go
@@ -69,7 +69,11 @@ func (o *Original) MakeWarnScores() {
 }
 
 func (o *Original) Score(hdlr data.HandlerTag) score.Value {
-	return o.warnScores[hdlr]
+	if value, found := o.warnScores[hdlr]; found {
+		return value
+	}
+	// No warnings have been reported for this handler.
+	return 100.0
 }
 
 // CheckByDataScores checks the calculated score value for a handler
diff --git a/internal/scoring/axis/warnings.go b/internal/scoring/axis/warnings.go
index 12806b1..9c1087e 100644
--- a/internal/scoring/axis/warnings.go
+++ b/internal/scoring/axis/warnings.go
@@ -3,6 +3,7 @@ package axis
 import (
 	_ "embed"
 	"html/template"
+	"slices"
 	"strconv"
 
 	"github.com/madkins23/go-slog/infra/warning"
@@ -42,7 +43,7 @@ func NewWarnings(levelWeight map[warning.Level]uint, summaryHTML template.HTML)
 	return w
 }
 
-func (w *Warnings) Setup(_ *data.Benchmarks, warns *data.Warnings) error {
+func (w *Warnings) Setup(benchMarks *data.Benchmarks, warns *data.Warnings) error {
 	testTags := w.testTagMap(warns.TestTags())
 	// Calculate data ranges
 	// Do original calculation and newer calculations and compare them for error.
@@ -62,7 +63,16 @@ func (w *Warnings) Setup(_ *data.Benchmarks, warns *data.Warnings) error {
 	}
 	original.CheckMaxScore(maxScore)
 	original.MakeWarnScores()
-	for _, hdlr := range warns.HandlerTags() {
+	handlers := slices.Clone(warns.HandlerTags())
+	if benchMarks != nil {
+		// There may be no report for a handler with benchmark data, then it has no warnings.
+		for _, hdlr := range benchMarks.HandlerTags() {
+			if !slices.Contains(handlers, hdlr) {
+				handlers = append(handlers, hdlr)
+			}
+		}
+	}
+	for _, hdlr := range handlers {
 		if w.handlerData[hdlr] == nil {
 			w.handlerData[hdlr] = warn.NewHandlerData()
 		}
@@ -73,7 +83,10 @@ func (w *Warnings) Setup(_ *data.Benchmarks, warns *data.Warnings) error {
 
 		for _, level := range warning.LevelOrder {
 			var ranged score.Value
-			dataLevel := levels.Level(level)
+			var dataLevel *data.DataLevel
+			if levels != nil {
+				dataLevel = levels.Level(level)
+			}
 			if dataLevel == nil {
 				ranged = 100.0
 			} else {
-- 
2.43.0


From 9a453d3211791232bccccbac250cb1af532ce455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:10:44 +0000
Subject: [PATCH 62/63] fix: score keepers do not know the names of handlers
 without a warning report

---
 internal/scoring/score/keeper.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/scoring/score/keeper.go b/internal/scoring/score/keeper.go
index 1398c15..24f8b69 100644
--- a/internal/scoring/score/keeper.go
+++ b/internal/scoring/score/keeper.go
@@ -64,7 +64,7 @@ func (k *Keeper) Setup(bench *data.Benchmarks, warns *data.Warnings) error {
 	k.handlers = make([]data.HandlerTag, 0)
 	k.tests = make([]data.TestTag, 0)
 	for _, hdlr := range bench.HandlerTags() {
-		if k.filter == nil || k.filter.Keep(warns.HandlerName(hdlr)) {
+		if k.filter == nil || k.filter.Keep(bench.HandlerName(hdlr)) {
 			k.handlers = append(k.handlers, hdlr)
 		}
 	}
-- 
2.43.0


From 10db216d47097aa4bc8f1b687602cadf669306b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:10:44 +0000
Subject: [PATCH 63/63] fix: score charts misplace and misname handlers without
 a warning report

---
 cmd/server/chart/score.go | 14 +++++++-------
 cmd/server/server.go      |  2 +-
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/cmd/server/chart/score.go b/cmd/server/chart/score.go
index 895c3f9..f6c6464 100644
--- a/cmd/server/chart/score.go
+++ b/cmd/server/chart/score.go
@@ -127,7 +127,7 @@ func init() {
 
 // Score generates an SVG chart for the score visualization and
 // uses the gin.Context argument to send the SVG data back to the user's browser.
-func Score(c *gin.Context, warns *data.Warnings) {
+func Score(c *gin.Context, bench *data.Benchmarks) {
 	size := scoreChartSize(c)
 	cacheKey := "score:" + c.Param("keeper")
 	cacheKey = cacheKey + ":" + strconv.Itoa(size)
@@ -140,7 +140,7 @@ func Score(c *gin.Context, warns *data.Warnings) {
 		c.String(http.StatusBadRequest, "%s", "No scores for "+c.Param("keeper"))
 		return
 	}
-	chartData := newChartData(keeper, warns, sizes[size])
+	chartData := newChartData(keeper, bench, sizes[size])
 	if !found {
 		graph := chartData.generate()
 		var buf bytes.Buffer
@@ -196,16 +196,16 @@ type scoreChartData struct {
 	items    []scoreChartDataItem
 	series   []chart.Series
 	size     *sizeData
-	warns    *data.Warnings
+	bench    *data.Benchmarks
 }
 
-func newChartData(keeper *score.Keeper, warns *data.Warnings, size *sizeData) *scoreChartData {
+func newChartData(keeper *score.Keeper, bench *data.Benchmarks, size *sizeData) *scoreChartData {
 	cd := &scoreChartData{
 		handlers: make(map[data.HandlerTag]*handlerCoords),
 		keeper:   keeper,
 		series:   make([]chart.Series, 0, 6),
 		size:     size,
-		warns:    warns,
+		bench:    bench,
 	}
 	// Initializes a map from data.HandlerTag to *handlerCoords.
 	// Handler records are only used if the handler scores are within the size of the chart.
@@ -215,7 +215,7 @@ func newChartData(keeper *score.Keeper, warns *data.Warnings, size *sizeData) *s
 			cd.handlers[hdlr] = &handlerCoords{y: cd.keeper.Y().ScoreFor(hdlr)}
 		}
 	}
-	for _, hdlr := range cd.warns.HandlerTags() {
+	for _, hdlr := range cd.keeper.HandlerTags() {
 		// Only add value if there is already a benchmark score.
 		if coords, found := cd.handlers[hdlr]; found {
 			// Only add x-value if it is within bounds (above size.low.x).
@@ -307,7 +307,7 @@ func (cd *scoreChartData) dataMarkers() {
 			x := float64(coords.x)
 			y := float64(coords.y)
 			cd.items = append(cd.items, scoreChartDataItem{
-				label: cd.warns.HandlerName(hdlr),
+				label: cd.bench.HandlerName(hdlr),
 				x:     x,
 				y:     y,
 			})
diff --git a/cmd/server/server.go b/cmd/server/server.go
index 612d018..7733d06 100644
--- a/cmd/server/server.go
+++ b/cmd/server/server.go
@@ -504,5 +504,5 @@ func barChart(c *gin.Context) {
 
 // scoreChart generates an SVG chart for the specified score Data.
 func scoreChart(c *gin.Context) {
-	chart.Score(c, warns)
+	chart.Score(c, bench)
 }
-- 
2.43.0

