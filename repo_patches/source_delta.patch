From 291a2a53109187518c013be68902be658867d921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:49 +0000
Subject: [PATCH 01/43] fix: strings ending in an escaped backslash were not
 terminated by their closing quote

---
 parser.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/parser.go b/parser.go
index ee0ffb2..a6e1290 100644
--- a/parser.go
+++ b/parser.go
@@ -144,8 +144,9 @@ readString:
 		i := strings.IndexByte(s, delimString) - 1
 		if 0 <= i && i < len(s) {
 			if s[i] == delimEscape {
-				// Advance past '\' and '"' and scan the remaining string
-				for i += 2; 0 <= i && i < len(s); i++ { // Avoid bounds check
+				// The byte before the quote may itself be escaped so scan
+				// the string from the start to pair escapes correctly
+				for i = 0; 0 <= i && i < len(s); i++ { // Avoid bounds check
 					switch s[i] {
 					case delimString:
 						// Slice until the closing quote
-- 
2.43.0


From 091492ace16dd27cf8e1e6d16d8320f808a7d4dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:16 +0000
Subject: [PATCH 02/43] fix: Node.Append stored a dangling value for an invalid
 node

---
 node.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/node.go b/node.go
index 2fd55ec..360e6d7 100644
--- a/node.go
+++ b/node.go
@@ -300,10 +300,12 @@ func (n Node) Append(values ...Node) {
 	if nn := n.get(); nn != nil && nn.info.IsArray() {
 		vv := nn.values
 		for _, v := range values {
-			vv = append(vv, V{
-				id:  n.doc.copyOrAdopt(v.Document(), v.ID(), n.id),
-				key: "",
-			})
+			if id := n.doc.copyOrAdopt(v.Document(), v.ID(), n.id); id < maxUint {
+				vv = append(vv, V{
+					id:  id,
+					key: "",
+				})
+			}
 		}
 		// copyOrAdopt might grow nodes array invalidating nn pointer
 		n.doc.nodes[n.id].values = vv
-- 
2.43.0


From a23596a82419f35e4aa64c09a24052c017d13e09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:18 +0000
Subject: [PATCH 03/43] fix: copies of root nodes kept the root flag and could
 be adopted twice

---
 document.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/document.go b/document.go
index ea8a555..b8cf2cc 100644
--- a/document.go
+++ b/document.go
@@ -304,7 +304,7 @@ func (d *Document) ncopy(other *Document, n *node) uint {
 	values := cp.values[:cap(cp.values)]
 	*cp = node{
 		raw:  n.raw,
-		info: n.info,
+		info: n.info &^ infRoot, // a copy always becomes some node's value
 	}
 	numV := uint(0)
 	for i := range n.values {
-- 
2.43.0


From 106c1b4827c3293660be2d4ecf15f2e450c0e9f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:19 +0000
Subject: [PATCH 04/43] fix: adopting an ancestor of the target node created a
 cycle

---
 document.go | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/document.go b/document.go
index b8cf2cc..28b23b3 100644
--- a/document.go
+++ b/document.go
@@ -346,7 +346,7 @@ func (d *Document) copyOrAdopt(other *Document, id, to uint) uint {
 		return maxUint
 	}
 	if other == d {
-		if id != to && n.info.IsRoot() && id != 0 {
+		if n.info.IsRoot() && id != 0 && !d.contains(id, to) {
 			n.info &^= infRoot
 			return id
 		}
@@ -354,6 +354,21 @@ func (d *Document) copyOrAdopt(other *Document, id, to uint) uint {
 	return d.ncopy(other, n)
 }
 
+// contains checks if node id is target or one of target's ancestors.
+func (d *Document) contains(id, target uint) bool {
+	if id == target {
+		return true
+	}
+	if n := d.get(id); n != nil {
+		for i := range n.values {
+			if d.contains(n.values[i].id, target) {
+				return true
+			}
+		}
+	}
+	return false
+}
+
 func (d *Document) grow() (n *node) {
 	if len(d.nodes) < cap(d.nodes) {
 		d.nodes = d.nodes[:len(d.nodes)+1]
-- 
2.43.0


From a76d867df0d254e615754c4963e77cdfa2749314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:21 +0000
Subject: [PATCH 05/43] fix: Lookup matched array values by an empty or
 overflowing index

---
 document.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/document.go b/document.go
index 28b23b3..05e1c0c 100644
--- a/document.go
+++ b/document.go
@@ -76,6 +76,9 @@ lookup:
 					}
 				}
 			case TypeArray:
+				if len(key) == 0 {
+					return maxUint
+				}
 				i := 0
 				for _, c := range []byte(key) {
 					if c -= '0'; 0 <= c && c <= 9 {
@@ -83,6 +86,9 @@ lookup:
 					} else {
 						return maxUint
 					}
+					if i >= len(n.values) {
+						return maxUint
+					}
 				}
 				if 0 <= i && i < len(n.values) {
 					v = &n.values[i]
-- 
2.43.0


From 520b443db6bfb53e6b820ebe09a8acb2ce235f57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:22 +0000
Subject: [PATCH 06/43] fix: Node.Slice could not reach the end of the array or
 make it empty

---
 node.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/node.go b/node.go
index 360e6d7..f4cf81d 100644
--- a/node.go
+++ b/node.go
@@ -316,7 +316,7 @@ func (n Node) Append(values ...Node) {
 
 // Slice reslices an Array node.
 func (n Node) Slice(i, j int) {
-	if n := n.get(); n != nil && n.info.IsArray() && 0 <= i && i < j && j < len(n.values) {
+	if n := n.get(); n != nil && n.info.IsArray() && 0 <= i && i <= j && j <= len(n.values) {
 		n.values = n.values[i:j]
 	}
 }
-- 
2.43.0


From 96479249fa953e00a405f1eb76dcb476b3d68680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:57 +0000
Subject: [PATCH 07/43] fix: unescaping a lone surrogate swallowed the escape
 following it

---
 strjson/unescape.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/strjson/unescape.go b/strjson/unescape.go
index 5c55bbd..f7967cd 100644
--- a/strjson/unescape.go
+++ b/strjson/unescape.go
@@ -78,12 +78,14 @@ unescapeRune:
 		i += 5
 		if utf16.IsSurrogate(r1) {
 			if len(ss) > 10 && ss[5] == delimEscape && ss[6] == 'u' {
-				i += 6
 				r2 := rune(fromHex(ss[7])) << 12
 				r2 |= rune(fromHex(ss[8])) << 8
 				r2 |= rune(fromHex(ss[9])) << 4
 				r2 |= rune(fromHex(ss[10]))
-				r1 = utf16.DecodeRune(r1, r2)
+				// Consume the second escape only if it completes the pair
+				if r1 = utf16.DecodeRune(r1, r2); r1 != utf8.RuneError {
+					i += 6
+				}
 			} else {
 				r1 = utf8.RuneError
 			}
@@ -223,12 +225,14 @@ unescapeRune:
 		i += 5
 		if utf16.IsSurrogate(r1) {
 			if len(ss) > 10 && ss[5] == delimEscape && ss[6] == 'u' {
-				i += 6
 				r2 := rune(fromHex(ss[7])) << 12
 				r2 |= rune(fromHex(ss[8])) << 8
 				r2 |= rune(fromHex(ss[9])) << 4
 				r2 |= rune(fromHex(ss[10]))
-				r1 = utf16.DecodeRune(r1, r2)
+				// Consume the second escape only if it completes the pair
+				if r1 = utf16.DecodeRune(r1, r2); r1 != utf8.RuneError {
+					i += 6
+				}
 			} else {
 				r1 = utf8.RuneError
 			}
-- 
2.43.0


From 3444b094208cf18ac5391fa428706ec985d8efff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:59 +0000
Subject: [PATCH 08/43] fix: Node.WrapUnmarshalText passed the escaped form of
 the string

---
 node.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/node.go b/node.go
index f4cf81d..c6460b3 100644
--- a/node.go
+++ b/node.go
@@ -226,7 +226,7 @@ func (n Node) WrapUnmarshalText(u encoding.TextUnmarshaler) (err error) {
 		switch t := node.info.Type(); t {
 		case TypeString:
 			buf := bufferpool.Get().([]byte)
-			buf = append(buf[:0], node.raw...)
+			buf = strjson.AppendUnescaped(buf[:0], node.raw)
 			err = u.UnmarshalText(buf)
 			bufferpool.Put(buf)
 			return
-- 
2.43.0


From 25e0768a4ff170ee575da9cff9e4c9fb84917d3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:48:00 +0000
Subject: [PATCH 09/43] fix: ToInterface left object keys escaped

---
 document.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/document.go b/document.go
index 05e1c0c..ebced57 100644
--- a/document.go
+++ b/document.go
@@ -232,7 +232,7 @@ func (d *Document) toInterfaceMap(values []V) (interface{}, bool) {
 		ok bool
 	)
 	for _, v := range values {
-		m[v.key], ok = d.toInterface(v.id)
+		m[strjson.Unescaped(v.key)], ok = d.toInterface(v.id)
 		if !ok {
 			return nil, false
 		}
-- 
2.43.0


From d67695ae3734ca28185f6d7a0ce9be7689873d47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:52 +0000
Subject: [PATCH 10/43] fix: Value of an iterator that was not advanced is no
 node instead of the document root

---
 node.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/node.go b/node.go
index c6460b3..f7ec153 100644
--- a/node.go
+++ b/node.go
@@ -142,7 +142,7 @@ func (n Node) Type() Type {
 // Values returns a value iterator over an Array or Object values.
 func (n Node) Values() IterV {
 	if node := n.get(); node != nil {
-		return IterV{node: n, values: node.values}
+		return IterV{node: n, values: node.values, V: V{id: maxUint}}
 	}
 	return IterV{}
 }
-- 
2.43.0


From f998b6733b54a7ad3e5532e42b54e81e26d51dfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:38 +0000
Subject: [PATCH 11/43] fix: encode float64 values with 64 bit precision

---
 unjson/encode.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unjson/encode.go b/unjson/encode.go
index cf89c9f..a9a05d0 100644
--- a/unjson/encode.go
+++ b/unjson/encode.go
@@ -131,7 +131,7 @@ func newEncoder(typ reflect.Type, options *Options, hints hint, codecs cache) (e
 	case reflect.Float32:
 		return newFloatEncoder(32, options)
 	case reflect.Float64:
-		return newFloatEncoder(32, options)
+		return newFloatEncoder(64, options)
 	case reflect.Bool:
 		return boolEncoder{}, nil
 	case reflect.String:
-- 
2.43.0


From 8625691d154bbc0df0e4f9a89e6d8edca0c690d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:39 +0000
Subject: [PATCH 12/43] fix: escape the text of encoding.TextMarshaler values

---
 unjson/encode.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unjson/encode.go b/unjson/encode.go
index a9a05d0..da929fd 100644
--- a/unjson/encode.go
+++ b/unjson/encode.go
@@ -210,7 +210,7 @@ func (textEncoder) encode(out []byte, v reflect.Value) (text []byte, err error)
 	text, err = v.Interface().(encoding.TextMarshaler).MarshalText()
 	if err == nil {
 		out = append(out, delimString)
-		out = append(out, text...)
+		out = strjson.AppendEscaped(out, string(text), false)
 		out = append(out, delimString)
 	}
 	return out, err
-- 
2.43.0


From 52375bd422e1a7b60071c70ae53d2bcc7409b8b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:40 +0000
Subject: [PATCH 13/43] fix: report errors of array elements

---
 unjson/decode.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/unjson/decode.go b/unjson/decode.go
index e87e213..a4a93a7 100644
--- a/unjson/decode.go
+++ b/unjson/decode.go
@@ -197,7 +197,9 @@ func (dec *arrayDecoder) decode(v reflect.Value, n njson.Node) error {
 		iter := n.Values()
 		for i := 0; i < dec.size; i++ {
 			if iter.Next() {
-				dec.decoder.decode(v.Index(i), iter.Value())
+				if err := dec.decoder.decode(v.Index(i), iter.Value()); err != nil {
+					return err
+				}
 			} else {
 				for ; i < dec.size; i++ {
 					el := v.Index(i)
-- 
2.43.0


From 39bff99e29985b7873a21bb0ceea11943eaebc8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:41 +0000
Subject: [PATCH 14/43] fix: report errors of slice elements

---
 unjson/decode.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unjson/decode.go b/unjson/decode.go
index a4a93a7..3a4bfe5 100644
--- a/unjson/decode.go
+++ b/unjson/decode.go
@@ -267,7 +267,7 @@ func (d *sliceDecoder) decode(v reflect.Value, n njson.Node) (err error) {
 		return n.TypeError(njson.TypeArray | njson.TypeNull)
 
 	}
-	return nil
+	return err
 }
 
 type mapDecoder struct {
-- 
2.43.0


From 8ef1a8e303f685cba5ba1608f48838e7b777ac6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:10 +0000
Subject: [PATCH 15/43] fix: parse floats to the nearest float64 value

The fast path added rounding errors ("0.3" was 0.30000000000000004) and
wrapped around on long digit sequences.
---
 numjson/numjson.go | 62 ++++++++++++++++++++++------------------------
 1 file changed, 30 insertions(+), 32 deletions(-)

diff --git a/numjson/numjson.go b/numjson/numjson.go
index fb3c233..f4dccb8 100644
--- a/numjson/numjson.go
+++ b/numjson/numjson.go
@@ -11,10 +11,11 @@ var fNaN = math.NaN()
 func ParseFloat(s string) float64 {
 	var (
 		i      uint
-		j      int
+		j      int // integer digits
+		frac   int // fraction digits
+		exp    int
 		c      byte
 		num    uint64
-		dec    uint64
 		f      float64
 		signed bool
 	)
@@ -56,51 +57,39 @@ func ParseFloat(s string) float64 {
 	goto fallback
 decimal:
 	if c == '.' {
-		j = 0
 		for i++; i < uint(len(s)); i++ {
 			c = s[i]
 			if '0' <= c && c <= '9' {
-				dec = 10*dec + uint64(c-'0')
-				j++
+				num = num*10 + uint64(c-'0')
+				frac++
 				continue
 			}
-			if j > 0 {
+			if frac > 0 {
 				goto scientific
 			}
 			return fNaN
 		}
-		if 0 < j && j <= 18 {
-			f = float64(num) + float64(dec)*math.Pow10(-j)
-			if signed {
-				return -f
-			}
-			return f
-		}
-		if j == 0 {
+		if frac == 0 {
 			return fNaN
 		}
-		goto fallback
+		goto done
 	}
 scientific:
 	if c == 'e' || c == 'E' {
-		signed := false
-		exp := 0
+		negative := false
 		jj := 0
-		for i++; i < uint(len(s)); i++ {
+		if i++; i < uint(len(s)) && (s[i] == '-' || s[i] == '+') {
+			negative = s[i] == '-'
+			i++
+		}
+		for ; i < uint(len(s)); i++ {
 			c = s[i]
 			if '0' <= c && c <= '9' {
 				jj++
-				exp = 10*exp + int(c-'0')
-				continue
-			}
-			if jj == 0 {
-				switch c {
-				case '-':
-					signed = true
-					continue
-				case '+':
-					continue
+				if exp <= 300 {
+					exp = 10*exp + int(c-'0')
 				}
+				continue
 			}
 			return fNaN
 		}
@@ -110,15 +99,24 @@ scientific:
 		if exp > 300 {
 			goto fallback
 		}
-		if signed {
-			f = (float64(num) + float64(dec)*math.Pow10(-j)) * math.Pow10(-exp)
-		} else {
-			f = float64(num)*math.Pow10(exp) + float64(dec)*math.Pow10(exp-j)
+		if negative {
+			exp = -exp
 		}
 		goto done
 	}
 	return fNaN
 done:
+	// The fast path is exact if both the digits and the power of ten are.
+	exp -= frac
+	if j+frac > 18 || num > 1<<53 || exp < -22 || 22 < exp {
+		goto fallback
+	}
+	f = float64(num)
+	if exp < 0 {
+		f /= math.Pow10(-exp)
+	} else {
+		f *= math.Pow10(exp)
+	}
 	if signed {
 		return -f
 	}
-- 
2.43.0


From 73d60ec874c9f1874762419c1a99e67ce75d157f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:11 +0000
Subject: [PATCH 16/43] fix: parse integers beyond 2^53 exactly

---
 node.go            |  7 ++-----
 numjson/numjson.go | 13 +++++++++++++
 2 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/node.go b/node.go
index f7ec153..4ee9691 100644
--- a/node.go
+++ b/node.go
@@ -4,7 +4,6 @@ import (
 	"encoding"
 	"encoding/json"
 	"io"
-	"math"
 	"strconv"
 	"sync"
 
@@ -103,8 +102,7 @@ func (n Node) ToFloat() (float64, bool) {
 // ToInt converts a node's value to int64.
 func (n Node) ToInt() (int64, bool) {
 	if n := n.get(); n != nil {
-		f := numjson.ParseFloat(n.raw)
-		return int64(f), math.MinInt64 <= f && f < math.MaxInt64 && math.Trunc(f) == f
+		return numjson.ParseInt(n.raw)
 	}
 	return 0, false
 }
@@ -112,8 +110,7 @@ func (n Node) ToInt() (int64, bool) {
 // ToUint converts a node's  value to uint64.
 func (n Node) ToUint() (uint64, bool) {
 	if n := n.get(); n != nil {
-		f := numjson.ParseFloat(n.raw)
-		return uint64(f), 0 <= f && f < math.MaxUint64 && math.Trunc(f) == f
+		return numjson.ParseUint(n.raw)
 	}
 	return 0, false
 }
diff --git a/numjson/numjson.go b/numjson/numjson.go
index f4dccb8..a6fea60 100644
--- a/numjson/numjson.go
+++ b/numjson/numjson.go
@@ -127,14 +127,27 @@ fallback:
 
 }
 
+// maxExact is where float64 values stop representing every integer.
+const maxExact = 1 << 53
+
 // ParseInt parses an int from string
 func ParseInt(s string) (int64, bool) {
 	f := ParseFloat(s)
+	if f <= -maxExact || maxExact <= f {
+		if i, err := strconv.ParseInt(s, 10, 64); err == nil {
+			return i, true
+		}
+	}
 	return int64(f), math.MinInt64 <= f && f < math.MaxInt64 && math.Trunc(f) == f
 }
 
 // ParseUint parses an uint from string
 func ParseUint(s string) (uint64, bool) {
 	f := ParseFloat(s)
+	if maxExact <= f {
+		if u, err := strconv.ParseUint(s, 10, 64); err == nil {
+			return u, true
+		}
+	}
 	return uint64(f), 0 <= f && f < math.MaxUint64 && math.Trunc(f) == f
 }
-- 
2.43.0


From 37cf0510e212f98ed1a0745bd038221622fb24a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:43 +0000
Subject: [PATCH 17/43] fix: refuse numbers that overflow the decoded value

---
 unjson/decode.go | 42 ++++++++++++++++++++++++------------------
 1 file changed, 24 insertions(+), 18 deletions(-)

diff --git a/unjson/decode.go b/unjson/decode.go
index 3a4bfe5..b79ff4a 100644
--- a/unjson/decode.go
+++ b/unjson/decode.go
@@ -416,14 +416,16 @@ func (uintDecoder) decode(v reflect.Value, n njson.Node) (err error) {
 	switch raw, t := n.Data(); t {
 	case njson.TypeNumber:
 		n, ok := numjson.ParseUint(raw)
-		if ok {
-			v.SetUint(n)
-			return nil
+		if !ok {
+			if n, err = strconv.ParseUint(raw, 10, 64); err != nil {
+				return
+			}
 		}
-		if n, err = strconv.ParseUint(raw, 10, 64); err == nil {
-			v.SetUint(n)
+		if v.OverflowUint(n) {
+			return errValue
 		}
-		return
+		v.SetUint(n)
+		return nil
 	default:
 		return n.TypeError(njson.TypeNumber)
 	case njson.TypeNull:
@@ -438,14 +440,16 @@ func (intDecoder) decode(v reflect.Value, n njson.Node) (err error) {
 	switch raw, t := n.Data(); t {
 	case njson.TypeNumber:
 		n, ok := numjson.ParseInt(raw)
-		if ok {
-			v.SetInt(n)
-			return nil
+		if !ok {
+			if n, err = strconv.ParseInt(raw, 10, 64); err != nil {
+				return
+			}
 		}
-		if n, err = strconv.ParseInt(raw, 10, 64); err == nil {
-			v.SetInt(n)
+		if v.OverflowInt(n) {
+			return errValue
 		}
-		return
+		v.SetInt(n)
+		return nil
 	default:
 		return n.TypeError(njson.TypeNumber)
 	case njson.TypeNull:
@@ -460,14 +464,16 @@ func (floatDecoder) decode(v reflect.Value, n njson.Node) (err error) {
 	switch raw, typ := n.Data(); typ {
 	case njson.TypeNumber:
 		f := numjson.ParseFloat(raw)
-		if f == f {
-			v.SetFloat(f)
-			return nil
+		if f != f {
+			if f, err = strconv.ParseFloat(raw, 64); err != nil {
+				return
+			}
 		}
-		if f, err = strconv.ParseFloat(raw, 64); err == nil {
-			v.SetFloat(f)
+		if v.OverflowFloat(f) {
+			return errValue
 		}
-		return
+		v.SetFloat(f)
+		return nil
 	case njson.TypeNull:
 		v.SetFloat(0)
 		return nil
-- 
2.43.0


From 2ead91e2cddf96b3a4aa5c90b532a267e72f9307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:44 +0000
Subject: [PATCH 18/43] fix: decoding to a nil map panicked

---
 unjson/decode.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/unjson/decode.go b/unjson/decode.go
index b79ff4a..a251507 100644
--- a/unjson/decode.go
+++ b/unjson/decode.go
@@ -307,6 +307,9 @@ func (d *mapDecoder) decode(v reflect.Value, n njson.Node) (err error) {
 	case njson.TypeNull:
 		return
 	case njson.TypeObject:
+		if v.IsNil() {
+			v.Set(reflect.MakeMap(d.typ))
+		}
 		val := reflect.New(d.typ.Elem()).Elem()
 		iter := n.Values()
 		for iter.Next() {
-- 
2.43.0


From 6cde63b741b9416af7214a2b0bfa5166df169aef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:07 +0000
Subject: [PATCH 19/43] fix: refuse numbers that overflow float64

---
 unjson/decode.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/unjson/decode.go b/unjson/decode.go
index a251507..acd180d 100644
--- a/unjson/decode.go
+++ b/unjson/decode.go
@@ -4,6 +4,7 @@ import (
 	"encoding"
 	"encoding/json"
 	"errors"
+	"math"
 	"reflect"
 	"strconv"
 
@@ -472,7 +473,7 @@ func (floatDecoder) decode(v reflect.Value, n njson.Node) (err error) {
 				return
 			}
 		}
-		if v.OverflowFloat(f) {
+		if math.IsInf(f, 0) || v.OverflowFloat(f) {
 			return errValue
 		}
 		v.SetFloat(f)
-- 
2.43.0


From d6fa9fb817833f0e10adae29d6ef2e6d6dc79273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:08 +0000
Subject: [PATCH 20/43] fix: unescape map keys and convert them to the key type

---
 unjson/decode.go | 32 +++++++++++++++++++++++++++++++-
 1 file changed, 31 insertions(+), 1 deletion(-)

diff --git a/unjson/decode.go b/unjson/decode.go
index acd180d..f42c988 100644
--- a/unjson/decode.go
+++ b/unjson/decode.go
@@ -303,6 +303,32 @@ func newMapDecoder(typ reflect.Type, options *Options, codecs cache) (*mapDecode
 	md.decoder = dec
 	return &md, nil
 }
+
+// key converts an object key to a map key
+func (d *mapDecoder) key(raw string) (reflect.Value, error) {
+	s := strjson.Unescaped(raw)
+	typ := d.typ.Key()
+	if typ.Kind() == reflect.String {
+		return reflect.ValueOf(s).Convert(typ), nil
+	}
+	ptr := typ.Kind() == reflect.Ptr
+	if ptr {
+		typ = typ.Elem()
+	}
+	key := reflect.New(typ)
+	u, ok := key.Interface().(encoding.TextUnmarshaler)
+	if !ok {
+		return key, errInvalidType
+	}
+	if err := u.UnmarshalText([]byte(s)); err != nil {
+		return key, err
+	}
+	if ptr {
+		return key, nil
+	}
+	return key.Elem(), nil
+}
+
 func (d *mapDecoder) decode(v reflect.Value, n njson.Node) (err error) {
 	switch n.Type() {
 	case njson.TypeNull:
@@ -319,7 +345,11 @@ func (d *mapDecoder) decode(v reflect.Value, n njson.Node) (err error) {
 			if err != nil {
 				return
 			}
-			v.SetMapIndex(reflect.ValueOf(iter.Key()), val)
+			key, err := d.key(iter.Key())
+			if err != nil {
+				return err
+			}
+			v.SetMapIndex(key, val)
 		}
 		return
 	default:
-- 
2.43.0


From 6dbc5a407825b82b47f8c8d0ba639cac49e5e011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:28 +0000
Subject: [PATCH 21/43] fix: keep the fields decoded to a nil embedded pointer

---
 unjson/codec.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unjson/codec.go b/unjson/codec.go
index 08ebc0a..9dbceb7 100644
--- a/unjson/codec.go
+++ b/unjson/codec.go
@@ -218,7 +218,7 @@ func (c *structCodec) decode(v reflect.Value, n njson.Node) (err error) {
 				for _, i := range fc.index[1:] {
 					if i == -1 {
 						if field.IsNil() {
-							field = reflect.New(field.Type().Elem())
+							field.Set(reflect.New(field.Type().Elem()))
 						}
 						field = field.Elem()
 					} else {
-- 
2.43.0


From 7064b253a6b5a0d2544b8a5b8ae20de16bc6cc76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:29 +0000
Subject: [PATCH 22/43] fix: decoding to a nil pointer panicked

---
 unjson/decode.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/unjson/decode.go b/unjson/decode.go
index f42c988..d70fc2d 100644
--- a/unjson/decode.go
+++ b/unjson/decode.go
@@ -37,7 +37,7 @@ type typeDecoder struct {
 }
 
 // Decode implements the Decoder interface.
-// It handles the case of a x being a nil pointer by creating a new blank value.
+// A nil pointer has no value to decode to, so it is only valid for null nodes.
 func (c *typeDecoder) Decode(x interface{}, n njson.Node) error {
 	if x == nil {
 		return errInvalidValueType
@@ -50,7 +50,7 @@ func (c *typeDecoder) Decode(x interface{}, n njson.Node) error {
 		if n.Type() == njson.TypeNull {
 			return nil
 		}
-		v.Set(reflect.New(c.typ.Elem()))
+		return errInvalidValueType
 	}
 	return c.decode(v.Elem(), n)
 }
-- 
2.43.0


From 725abaf6f28eaaee064f3bc9aa72786a7125285c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:30 +0000
Subject: [PATCH 23/43] fix: encoding a nil pointer panicked

---
 unjson/encode.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/unjson/encode.go b/unjson/encode.go
index da929fd..91153da 100644
--- a/unjson/encode.go
+++ b/unjson/encode.go
@@ -42,6 +42,12 @@ func (m *typeEncoder) Encode(out []byte, x interface{}) ([]byte, error) {
 	}
 	v := reflect.ValueOf(x)
 	if v.Kind() == reflect.Ptr {
+		if v.IsNil() {
+			if v.Type().Elem() != m.typ {
+				return out, errInvalidValueType
+			}
+			return append(out, strNull...), nil
+		}
 		v = v.Elem()
 	}
 	if v.Type() != m.typ {
-- 
2.43.0


From b264043c39e005a96249a65f6b674dcc70376e6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:31 +0000
Subject: [PATCH 24/43] fix: marshalers with nil values or pointer receivers
 panicked

---
 unjson/encode.go | 40 +++++++++++++++++++++++++++++++++++++---
 1 file changed, 37 insertions(+), 3 deletions(-)

diff --git a/unjson/encode.go b/unjson/encode.go
index 91153da..04dcf10 100644
--- a/unjson/encode.go
+++ b/unjson/encode.go
@@ -147,16 +147,46 @@ func newEncoder(typ reflect.Type, options *Options, hints hint, codecs cache) (e
 	}
 }
 
+// marshaler returns the value of v that implements typ.
+//
+// It returns nil for nil pointers and interfaces.
+func marshaler(v reflect.Value, typ reflect.Type) interface{} {
+	switch v.Kind() {
+	case reflect.Ptr, reflect.Interface:
+		if v.IsNil() {
+			return nil
+		}
+	}
+	if !v.Type().Implements(typ) {
+		// The method is defined on the pointer of the type
+		if v.CanAddr() {
+			return v.Addr().Interface()
+		}
+		ptr := reflect.New(v.Type())
+		ptr.Elem().Set(v)
+		return ptr.Interface()
+	}
+	return v.Interface()
+}
+
 type njsonEncoder struct{}
 
 func (njsonEncoder) encode(out []byte, v reflect.Value) ([]byte, error) {
-	return v.Interface().(njson.Appender).AppendJSON(out)
+	m, ok := marshaler(v, typAppender).(njson.Appender)
+	if !ok {
+		return append(out, strNull...), nil
+	}
+	return m.AppendJSON(out)
 }
 
 type jsonEncoder struct{}
 
 func (jsonEncoder) encode(out []byte, v reflect.Value) (b []byte, err error) {
-	b, err = v.Interface().(json.Marshaler).MarshalJSON()
+	m, ok := marshaler(v, typJSONMarshaler).(json.Marshaler)
+	if !ok {
+		return append(out, strNull...), nil
+	}
+	b, err = m.MarshalJSON()
 	if err == nil && b != nil {
 		out = append(out, b...)
 	}
@@ -213,7 +243,11 @@ func (c interfaceEncoder) encode(b []byte, v reflect.Value) ([]byte, error) {
 type textEncoder struct{}
 
 func (textEncoder) encode(out []byte, v reflect.Value) (text []byte, err error) {
-	text, err = v.Interface().(encoding.TextMarshaler).MarshalText()
+	m, ok := marshaler(v, typTextMarshaler).(encoding.TextMarshaler)
+	if !ok {
+		return append(out, strNull...), nil
+	}
+	text, err = m.MarshalText()
 	if err == nil {
 		out = append(out, delimString)
 		out = strjson.AppendEscaped(out, string(text), false)
-- 
2.43.0


From 7ad1d0629e1f783bbdda059fb169e0f5427caac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:32 +0000
Subject: [PATCH 25/43] fix: a json.Marshaler without output is an error

---
 unjson/encode.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/unjson/encode.go b/unjson/encode.go
index 04dcf10..cc73418 100644
--- a/unjson/encode.go
+++ b/unjson/encode.go
@@ -187,7 +187,10 @@ func (jsonEncoder) encode(out []byte, v reflect.Value) (b []byte, err error) {
 		return append(out, strNull...), nil
 	}
 	b, err = m.MarshalJSON()
-	if err == nil && b != nil {
+	if err == nil && len(b) == 0 {
+		err = errValue
+	}
+	if err == nil {
 		out = append(out, b...)
 	}
 	return out, err
-- 
2.43.0


From 17223606796c29a9c02e76e42c92b0ba20a005e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:33 +0000
Subject: [PATCH 26/43] fix: unmarshalers with nil values panicked

---
 unjson/decode.go | 26 +++++++++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/unjson/decode.go b/unjson/decode.go
index d70fc2d..6a501c3 100644
--- a/unjson/decode.go
+++ b/unjson/decode.go
@@ -62,6 +62,14 @@ var (
 	errNilNode          = errors.New("Nil JSON node")
 )
 
+// unmarshaler returns the value to unmarshal to creating it if v is a nil pointer.
+func unmarshaler(v reflect.Value) interface{} {
+	if v.Kind() == reflect.Ptr && v.IsNil() {
+		v.Set(reflect.New(v.Type().Elem()))
+	}
+	return v.Interface()
+}
+
 // njsonDecoder implements the Decoder interface for types implementing njson.Unmarshaler
 type njsonDecoder struct{}
 
@@ -73,7 +81,11 @@ func (njsonDecoder) Decode(x interface{}, n njson.Node) error {
 }
 
 func (njsonDecoder) decode(v reflect.Value, n njson.Node) error {
-	return v.Interface().(njson.Unmarshaler).UnmarshalNodeJSON(n)
+	x, ok := unmarshaler(v).(njson.Unmarshaler)
+	if !ok {
+		return errInvalidValueType
+	}
+	return x.UnmarshalNodeJSON(n)
 }
 
 // jsonDecoder implements the Decoder interface for types implementing json.Unmarshaller
@@ -88,7 +100,11 @@ func (jsonDecoder) Decode(x interface{}, n njson.Node) (err error) {
 }
 
 func (jsonDecoder) decode(v reflect.Value, n njson.Node) (err error) {
-	return n.WrapUnmarshalJSON(v.Interface().(json.Unmarshaler))
+	u, ok := unmarshaler(v).(json.Unmarshaler)
+	if !ok {
+		return errInvalidValueType
+	}
+	return n.WrapUnmarshalJSON(u)
 }
 
 // NewTypeDecoder creates a new decoder for a type.
@@ -520,7 +536,11 @@ type textDecoder struct{}
 
 func (textDecoder) decode(v reflect.Value, n njson.Node) error {
 	if n.Type() == njson.TypeString {
-		return n.WrapUnmarshalText(v.Interface().(encoding.TextUnmarshaler))
+		u, ok := unmarshaler(v).(encoding.TextUnmarshaler)
+		if !ok {
+			return errInvalidValueType
+		}
+		return n.WrapUnmarshalText(u)
 	}
 	return n.TypeError(njson.TypeString)
 }
-- 
2.43.0


From 488fbf7ba03b4523279c18f012f8b7d5fb487a14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:34 +0000
Subject: [PATCH 27/43] fix: escape struct keys and match unescaped keys

---
 unjson/codec.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/unjson/codec.go b/unjson/codec.go
index 9dbceb7..e00da2f 100644
--- a/unjson/codec.go
+++ b/unjson/codec.go
@@ -4,6 +4,7 @@ import (
 	"reflect"
 
 	"github.com/alxarch/njson"
+	"github.com/alxarch/njson/strjson"
 )
 
 type structCodec struct {
@@ -74,7 +75,7 @@ func (c *structCodec) encode(b []byte, v reflect.Value) ([]byte, error) {
 		b = append(b, start[more])
 		more = 1
 		b = append(b, delimString)
-		b = append(b, fc.key...)
+		b = strjson.AppendEscaped(b, fc.key, false)
 		b = append(b, delimString)
 		b = append(b, delimNameSeparator)
 		b, err = fc.encode(b, fv)
@@ -119,7 +120,6 @@ func (c *structCodec) merge(typ reflect.Type, options *Options, index []int, cod
 				continue
 			}
 		}
-		// tag = string(strjson.Escape(nil, tag))
 		if ff := c.Get(tag); ff != nil && cmpIndex(ff.index, index) != -1 {
 			continue
 		}
@@ -204,7 +204,7 @@ func (c *structCodec) decode(v reflect.Value, n njson.Node) (err error) {
 			iter  = n.Values()
 		)
 		for iter.Next() {
-			fc = c.Get(iter.Key())
+			fc = c.Get(strjson.Unescaped(iter.Key()))
 			if fc == nil {
 				continue
 			}
-- 
2.43.0


From f25038df4ed87340993fb183d23ebfd7819cb99b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:35 +0000
Subject: [PATCH 28/43] fix: refuse data after the unmarshaled value

---
 unjson/decode.go | 1 +
 unjson/unjson.go | 6 +++++-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/unjson/decode.go b/unjson/decode.go
index 6a501c3..be98f84 100644
--- a/unjson/decode.go
+++ b/unjson/decode.go
@@ -60,6 +60,7 @@ var (
 	errValue            = errors.New("Unsupported value")
 	errInvalidType      = errors.New("Invalid type")
 	errNilNode          = errors.New("Nil JSON node")
+	errTrailingData     = errors.New("Invalid data after JSON value")
 )
 
 // unmarshaler returns the value to unmarshal to creating it if v is a nil pointer.
diff --git a/unjson/unjson.go b/unjson/unjson.go
index e6af236..be0c449 100644
--- a/unjson/unjson.go
+++ b/unjson/unjson.go
@@ -29,6 +29,7 @@ package unjson
 
 import (
 	"reflect"
+	"strings"
 
 	"github.com/alxarch/njson"
 )
@@ -71,7 +72,10 @@ func UnmarshalFromString(s string, x interface{}) (err error) {
 		return
 	}
 	p := njson.Blank()
-	n, _, err := p.Parse(s)
+	n, tail, err := p.Parse(s)
+	if err == nil && strings.TrimSpace(tail) != "" {
+		err = errTrailingData
+	}
 	if err == nil {
 		err = d.Decode(x, n)
 	}
-- 
2.43.0


From 303448ca59fc759f192e322d6123463f73c795a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:36 +0000
Subject: [PATCH 29/43] fix: LineDecoder kept the nodes of all decoded lines

---
 unjson/stream.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/unjson/stream.go b/unjson/stream.go
index c0c1f79..e088ea9 100644
--- a/unjson/stream.go
+++ b/unjson/stream.go
@@ -42,6 +42,7 @@ func (d *LineDecoder) Decode(x interface{}) (err error) {
 		if isPrefix {
 			continue
 		}
+		d.p.Reset()
 		n, tail, err := d.p.Parse(s.String())
 		if err != nil {
 			return err
-- 
2.43.0


From a56f3743c0dbe472e2ab35437b0a42945b299638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:16 +0000
Subject: [PATCH 30/43] fix: LineDecoder lost a last line that fills its buffer

---
 unjson/stream.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unjson/stream.go b/unjson/stream.go
index e088ea9..f91351b 100644
--- a/unjson/stream.go
+++ b/unjson/stream.go
@@ -35,7 +35,7 @@ func (d *LineDecoder) Decode(x interface{}) (err error) {
 	s := strings.Builder{}
 	for {
 		line, isPrefix, err := d.r.ReadLine()
-		if err != nil {
+		if err != nil && (err != io.EOF || s.Len() == 0) {
 			return err
 		}
 		s.Write(line)
-- 
2.43.0


From 1883cc61529551233842060311e6dd085a641c22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:17 +0000
Subject: [PATCH 31/43] fix: encoding nil map keys

---
 unjson/encode.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/unjson/encode.go b/unjson/encode.go
index cc73418..446cebb 100644
--- a/unjson/encode.go
+++ b/unjson/encode.go
@@ -259,6 +259,16 @@ func (textEncoder) encode(out []byte, v reflect.Value) (text []byte, err error)
 	return out, err
 }
 
+// textKeyEncoder encodes map keys, a nil key is empty.
+type textKeyEncoder struct{ textEncoder }
+
+func (e textKeyEncoder) encode(out []byte, v reflect.Value) ([]byte, error) {
+	if v.Kind() == reflect.Ptr && v.IsNil() || v.Kind() == reflect.Interface && v.IsNil() {
+		return append(out, delimString, delimString), nil
+	}
+	return e.textEncoder.encode(out, v)
+}
+
 type mapEncoder struct {
 	typ     reflect.Type
 	encoder encoder
@@ -273,7 +283,7 @@ func newMapEncoder(typ reflect.Type, options *Options, codecs cache) (*mapEncode
 	}
 
 	if key.Implements(typTextMarshaler) {
-		me.keys = textEncoder{}
+		me.keys = textKeyEncoder{}
 	} else if key.Kind() == reflect.String {
 		me.keys = stringEncoder(false)
 	} else {
-- 
2.43.0


From a3795d78ef8e2bca1197c5bd7e83fc9b66acee12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:27 +0000
Subject: [PATCH 32/43] fix: decode to values of named empty interface types

---
 unjson/decode.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/unjson/decode.go b/unjson/decode.go
index be98f84..a0c7413 100644
--- a/unjson/decode.go
+++ b/unjson/decode.go
@@ -439,8 +439,12 @@ func (interfaceDecoder) decode(v reflect.Value, n njson.Node) error {
 		return errInvalidValueType
 	}
 	if x, ok := n.ToInterface(); ok {
-		xx := v.Addr().Interface().(*interface{})
-		*xx = x
+		// v may be of a named type so it is not always an interface{}
+		if x == nil {
+			v.Set(reflect.Zero(v.Type()))
+		} else {
+			v.Set(reflect.ValueOf(x))
+		}
 		return nil
 	}
 	return n.TypeError(njson.TypeAnyValue)
-- 
2.43.0


From 57976a593697c10a245e9c51e63116e33d629587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:06 +0000
Subject: [PATCH 33/43] fix: cached struct codecs hid the marshalers of fields

---
 unjson/cache.go  |  8 ++++++++
 unjson/decode.go | 23 ++++++++++++++++-------
 unjson/encode.go | 23 ++++++++++++++++-------
 3 files changed, 40 insertions(+), 14 deletions(-)

diff --git a/unjson/cache.go b/unjson/cache.go
index f548ea6..a951434 100644
--- a/unjson/cache.go
+++ b/unjson/cache.go
@@ -94,6 +94,10 @@ func cacheType(typ reflect.Type) bool {
 	}
 }
 func (c cache) encoder(typ reflect.Type, options *Options, hints hint) (encoder, error) {
+	// A cached struct codec might be there for decoding only
+	if enc := methodEncoder(typ); enc != nil {
+		return enc, nil
+	}
 	key := cacheKey{typ, hints}
 	if x := c[key]; x != nil {
 		if e, ok := x.(encoder); ok {
@@ -109,6 +113,10 @@ func (c cache) encoder(typ reflect.Type, options *Options, hints hint) (encoder,
 }
 
 func (c cache) decoder(typ reflect.Type, options *Options) (decoder, error) {
+	// A cached struct codec might be there for encoding only
+	if dec := methodDecoder(typ); dec != nil {
+		return dec, nil
+	}
 	key := cacheKey{typ, 0}
 	if x := c[key]; x != nil {
 		if e, ok := x.(decoder); ok {
diff --git a/unjson/decode.go b/unjson/decode.go
index a0c7413..066205e 100644
--- a/unjson/decode.go
+++ b/unjson/decode.go
@@ -141,17 +141,26 @@ func NewTypeDecoder(typ reflect.Type, tag string) (Decoder, error) {
 	}
 }
 
-func newDecoder(typ reflect.Type, options *Options, codecs cache) (decoder, error) {
-	if typ == nil {
-		return nil, errInvalidType
-	}
+// methodDecoder returns the decoder for types that define how they are decoded or nil.
+func methodDecoder(typ reflect.Type) decoder {
 	switch {
 	case typ.Implements(typNodeUnmarshaler):
-		return njsonDecoder{}, nil
+		return njsonDecoder{}
 	case typ.Implements(typJSONUnmarshaler):
-		return jsonDecoder{}, nil
+		return jsonDecoder{}
 	case typ.Implements(typTextUnmarshaler):
-		return textDecoder{}, nil
+		return textDecoder{}
+	default:
+		return nil
+	}
+}
+
+func newDecoder(typ reflect.Type, options *Options, codecs cache) (decoder, error) {
+	if typ == nil {
+		return nil, errInvalidType
+	}
+	if dec := methodDecoder(typ); dec != nil {
+		return dec, nil
 	}
 
 	switch typ.Kind() {
diff --git a/unjson/encode.go b/unjson/encode.go
index 446cebb..2d5cb12 100644
--- a/unjson/encode.go
+++ b/unjson/encode.go
@@ -102,17 +102,26 @@ func newTypeEncoder(typ reflect.Type, options *Options) (*typeEncoder, error) {
 	return &m, nil
 }
 
-func newEncoder(typ reflect.Type, options *Options, hints hint, codecs cache) (encoder, error) {
-	if typ == nil {
-		return nil, errInvalidType
-	}
+// methodEncoder returns the encoder for types that define how they are encoded or nil.
+func methodEncoder(typ reflect.Type) encoder {
 	switch {
 	case typ.Implements(typAppender):
-		return njsonEncoder{}, nil
+		return njsonEncoder{}
 	case typ.Implements(typJSONMarshaler):
-		return jsonEncoder{}, nil
+		return jsonEncoder{}
 	case typ.Implements(typTextMarshaler):
-		return textEncoder{}, nil
+		return textEncoder{}
+	default:
+		return nil
+	}
+}
+
+func newEncoder(typ reflect.Type, options *Options, hints hint, codecs cache) (encoder, error) {
+	if typ == nil {
+		return nil, errInvalidType
+	}
+	if enc := methodEncoder(typ); enc != nil {
+		return enc, nil
 	}
 	switch typ.Kind() {
 	case reflect.Ptr:
-- 
2.43.0


From 0288455cb402340b91f89eb1036087d232c5bcfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:23 +0000
Subject: [PATCH 34/43] fix: unmarshalers with pointer receivers were ignored
 in nested values

---
 unjson/decode.go | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/unjson/decode.go b/unjson/decode.go
index 066205e..55992a9 100644
--- a/unjson/decode.go
+++ b/unjson/decode.go
@@ -150,6 +150,18 @@ func methodDecoder(typ reflect.Type) decoder {
 		return jsonDecoder{}
 	case typ.Implements(typTextUnmarshaler):
 		return textDecoder{}
+	}
+	if kind := typ.Kind(); kind == reflect.Ptr || kind == reflect.Interface {
+		return nil
+	}
+	// The methods of a value's address also apply to the value
+	switch ptr := reflect.PtrTo(typ); {
+	case ptr.Implements(typNodeUnmarshaler):
+		return addrDecoder{njsonDecoder{}}
+	case ptr.Implements(typJSONUnmarshaler):
+		return addrDecoder{jsonDecoder{}}
+	case ptr.Implements(typTextUnmarshaler):
+		return addrDecoder{textDecoder{}}
 	default:
 		return nil
 	}
@@ -546,6 +558,18 @@ func (floatDecoder) decode(v reflect.Value, n njson.Node) (err error) {
 	}
 }
 
+// addrDecoder decodes a value using a decoder for it's address.
+type addrDecoder struct {
+	decoder
+}
+
+func (d addrDecoder) decode(v reflect.Value, n njson.Node) error {
+	if !v.CanAddr() {
+		return errInvalidValueType
+	}
+	return d.decoder.decode(v.Addr(), n)
+}
+
 type textDecoder struct{}
 
 func (textDecoder) decode(v reflect.Value, n njson.Node) error {
-- 
2.43.0


From 8401df2fcc5723c0520cb27a062ae4b016f898a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:00 +0000
Subject: [PATCH 35/43] fix: NewLineDecoder panicked for readers other than
 *bufio.Reader

---
 unjson/stream.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/unjson/stream.go b/unjson/stream.go
index f91351b..da1c50c 100644
--- a/unjson/stream.go
+++ b/unjson/stream.go
@@ -22,8 +22,8 @@ func NewLineDecoder(r io.Reader) *LineDecoder {
 		return nil
 	}
 	d := LineDecoder{}
-	if r, ok := r.(*bufio.Reader); ok {
-		d.r = r
+	if br, ok := r.(*bufio.Reader); ok {
+		d.r = br
 	} else {
 		d.r = bufio.NewReader(r)
 	}
-- 
2.43.0


From 21531812b426a3342557f42b7beb48059d18f14f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:36 +0000
Subject: [PATCH 36/43] fix: refuse integers below the range of int64

ParseInt gave the smallest int64 for integers that are out of range by
less than the precision of float64, for example -9223372036854775809.
---
 numjson/numjson.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/numjson/numjson.go b/numjson/numjson.go
index a6fea60..20ee95c 100644
--- a/numjson/numjson.go
+++ b/numjson/numjson.go
@@ -134,8 +134,9 @@ const maxExact = 1 << 53
 func ParseInt(s string) (int64, bool) {
 	f := ParseFloat(s)
 	if f <= -maxExact || maxExact <= f {
-		if i, err := strconv.ParseInt(s, 10, 64); err == nil {
-			return i, true
+		// Out of range the result is the nearest int64, otherwise zero.
+		if i, err := strconv.ParseInt(s, 10, 64); err == nil || i != 0 {
+			return i, err == nil
 		}
 	}
 	return int64(f), math.MinInt64 <= f && f < math.MaxInt64 && math.Trunc(f) == f
-- 
2.43.0


From f52ddeb049dac47a36dedb82e27c49f3e09a0eac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:57 +0000
Subject: [PATCH 37/43] fix: embedded pointers to types other than structs
 panicked

---
 unjson/codec.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/unjson/codec.go b/unjson/codec.go
index e00da2f..99ab2be 100644
--- a/unjson/codec.go
+++ b/unjson/codec.go
@@ -107,12 +107,15 @@ func (c *structCodec) merge(typ reflect.Type, options *Options, index []int, cod
 		index = append(index[:depth], field.Index...)
 		if !tagged && field.Anonymous {
 			t := field.Type
-			if t.Kind() == reflect.Ptr {
-				// Flag for fieldByIndex
-				index = append(index, -1)
+			ptr := t.Kind() == reflect.Ptr
+			if ptr {
 				t = t.Elem()
 			}
 			if t.Kind() == reflect.Struct {
+				if ptr {
+					// Flag for fieldByIndex
+					index = append(index, -1)
+				}
 				// embedded struct
 				if err := c.merge(t, options, index, codecs); err != nil {
 					return err
-- 
2.43.0


From 2fb666eaed6667be1b9421f108e28344fad3b056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:58 +0000
Subject: [PATCH 38/43] fix: a field shadowing one of an embedded struct was
 added beside it

---
 unjson/codec.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/unjson/codec.go b/unjson/codec.go
index 99ab2be..1d4a57a 100644
--- a/unjson/codec.go
+++ b/unjson/codec.go
@@ -123,7 +123,8 @@ func (c *structCodec) merge(typ reflect.Type, options *Options, index []int, cod
 				continue
 			}
 		}
-		if ff := c.Get(tag); ff != nil && cmpIndex(ff.index, index) != -1 {
+		shadowed := c.Get(tag)
+		if shadowed != nil && cmpIndex(shadowed.index, index) != -1 {
 			continue
 		}
 
@@ -147,13 +148,18 @@ func (c *structCodec) merge(typ reflect.Type, options *Options, index []int, cod
 			omit = omitNever{}
 		}
 
-		c.Add(codec{
+		f := codec{
 			key:     tag,
 			index:   copyIndex(index),
 			decoder: dec,
 			encoder: enc,
 			omiter:  omit,
-		})
+		}
+		if shadowed != nil {
+			*shadowed = f
+			continue
+		}
+		c.Add(f)
 	}
 	return nil
 }
-- 
2.43.0


From 6c8d56a972c19ad440c5de63b9c0362d61648582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:18:25 +0000
Subject: [PATCH 39/43] fix: structs embedding a pointer to themselves
 overflowed the stack

---
 unjson/codec.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/unjson/codec.go b/unjson/codec.go
index 1d4a57a..1ae6a8e 100644
--- a/unjson/codec.go
+++ b/unjson/codec.go
@@ -87,10 +87,17 @@ func (c *structCodec) encode(b []byte, v reflect.Value) ([]byte, error) {
 	return b, nil
 }
 
-func (c *structCodec) merge(typ reflect.Type, options *Options, index []int, codecs cache) error {
+func (c *structCodec) merge(typ reflect.Type, options *Options, index []int, codecs cache, parents ...reflect.Type) error {
 	if typ == nil {
 		return nil
 	}
+	for _, p := range parents {
+		if p == typ {
+			// All fields are shadowed by those of the outer struct
+			return nil
+		}
+	}
+	parents = append(parents[:len(parents):len(parents)], typ)
 	n := typ.NumField()
 	v := reflect.New(typ).Elem()
 	depth := len(index)
@@ -117,7 +124,7 @@ func (c *structCodec) merge(typ reflect.Type, options *Options, index []int, cod
 					index = append(index, -1)
 				}
 				// embedded struct
-				if err := c.merge(t, options, index, codecs); err != nil {
+				if err := c.merge(t, options, index, codecs, parents...); err != nil {
 					return err
 				}
 				continue
-- 
2.43.0


From 5e68436994e79dd39cc86453feba2b737d63098a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:18:26 +0000
Subject: [PATCH 40/43] fix: nil pointers with an Omit method panicked

---
 unjson/omit.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/unjson/omit.go b/unjson/omit.go
index 34f2fde..f86a1a6 100644
--- a/unjson/omit.go
+++ b/unjson/omit.go
@@ -75,6 +75,12 @@ func (f omitFunc) omit(v reflect.Value) bool {
 type omitMethod int
 
 func (m omitMethod) omit(v reflect.Value) bool {
+	switch v.Kind() {
+	case reflect.Ptr, reflect.Interface:
+		if v.IsNil() {
+			return true
+		}
+	}
 	results := v.Method(int(m)).Call(nil)
 	if len(results) > 0 {
 		return results[0].Bool()
-- 
2.43.0


From aaf1153520b50f341536ecbff5a951d52b91b2fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:18:27 +0000
Subject: [PATCH 41/43] fix: interfaces with an Omit method panicked

---
 unjson/omit.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/unjson/omit.go b/unjson/omit.go
index f86a1a6..92acdf9 100644
--- a/unjson/omit.go
+++ b/unjson/omit.go
@@ -90,8 +90,12 @@ func (m omitMethod) omit(v reflect.Value) bool {
 
 func customOmiter(typ reflect.Type, methodName string) omiter {
 	if method, ok := typ.MethodByName(methodName); ok {
-		f := method.Func.Type()
-		if f.NumIn() == 1 && f.NumOut() == 1 && f.Out(0).Kind() == reflect.Bool {
+		f := method.Type
+		in := 1 // receiver
+		if typ.Kind() == reflect.Interface {
+			in = 0
+		}
+		if f.NumIn() == in && f.NumOut() == 1 && f.Out(0).Kind() == reflect.Bool {
 			return omitMethod(method.Index)
 		}
 	}
-- 
2.43.0


From 23bb16d4530278b8eaf9d01042199708a2af0173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:18:28 +0000
Subject: [PATCH 42/43] fix: omitempty dropped values of marshaler interfaces
 and other kinds with marshalers

---
 unjson/omit.go | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/unjson/omit.go b/unjson/omit.go
index 92acdf9..ffb8423 100644
--- a/unjson/omit.go
+++ b/unjson/omit.go
@@ -190,10 +190,7 @@ func newOmiter(typ reflect.Type, methodName string) omiter {
 	case reflect.Array:
 		return newArrayOmiter(typ, methodName)
 	case reflect.Interface:
-		if typ.NumMethod() == 0 {
-			return omitNil{}
-		}
-		return omitAlways{}
+		return omitNil{}
 	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
 		return omitInt{}
 	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
@@ -203,6 +200,6 @@ func newOmiter(typ reflect.Type, methodName string) omiter {
 	case reflect.Bool:
 		return omitBool{}
 	default:
-		return omitAlways{}
+		return omitNever{}
 	}
 }
-- 
2.43.0


From 965985a3618dbfbf64c280d468269737c76c79c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:18:29 +0000
Subject: [PATCH 43/43] fix: Omit methods with pointer receivers were ignored
 in values that are not addressable

---
 unjson/omit.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/unjson/omit.go b/unjson/omit.go
index ffb8423..0536dbe 100644
--- a/unjson/omit.go
+++ b/unjson/omit.go
@@ -115,7 +115,12 @@ type elemOmiter struct {
 }
 
 func (o *elemOmiter) omit(v reflect.Value) bool {
-	return v.CanAddr() && o.omiter.omit(v.Addr())
+	if v.CanAddr() {
+		return o.omiter.omit(v.Addr())
+	}
+	ptr := reflect.New(v.Type())
+	ptr.Elem().Set(v)
+	return o.omiter.omit(ptr)
 }
 
 // newCustomOmiter creates an omiter func for a type.
-- 
2.43.0

