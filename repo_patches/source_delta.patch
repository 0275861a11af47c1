From db2c5846f38ca193ef52dc4ccf4ea59a7c7f2ea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:51 +0000
Subject: [PATCH 01/32] fix: report overflow of 8, 16 and 32-bit signed
 integers that wrap around twice

atoi.I8, I16 and I32 detected overflow by the sign of the wrapped sum only,
hence 300 was accepted as int8(44), 70000 as int16(4464) and 5000000000 as
int32(705032704).
---
 internal/atoi/atoi.go | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/internal/atoi/atoi.go b/internal/atoi/atoi.go
index 8ffc771..616994c 100644
--- a/internal/atoi/atoi.go
+++ b/internal/atoi/atoi.go
@@ -34,6 +34,9 @@ func I8[S []byte | string](s S) (n int8, overflow bool) {
 		case 3:
 			return -(d(1)*1e1 + d(2)), false
 		case 4: // This case can overflow
+			if s[1]-'0' > 1 {
+				return 0, true
+			}
 			if n = -(d(1)*1e2 + d(2)*1e1 + d(3)); n > 0 {
 				return 0, true
 			}
@@ -46,6 +49,9 @@ func I8[S []byte | string](s S) (n int8, overflow bool) {
 		case 2:
 			return d(0)*1e1 + d(1), false
 		case 3: // This case can overflow
+			if s[0]-'0' > 1 {
+				return 0, true
+			}
 			if n = d(0)*1e2 + d(1)*1e1 + d(2); n < 0 {
 				return 0, true
 			}
@@ -97,6 +103,9 @@ func I16[S []byte | string](s S) (n int16, overflow bool) {
 		case 5:
 			return -(d(1)*1e3 + d(2)*1e2 + d(3)*1e1 + d(4)), false
 		case 6: // This case can overflow
+			if s[1]-'0' > 3 {
+				return 0, true
+			}
 			n = -(d(1)*1e4 + d(2)*1e3 + d(3)*1e2 + d(4)*1e1 + d(5))
 			if n > 0 {
 				return 0, true
@@ -114,6 +123,9 @@ func I16[S []byte | string](s S) (n int16, overflow bool) {
 		case 4:
 			return d(0)*1e3 + d(1)*1e2 + d(2)*1e1 + d(3), false
 		case 5: // This case can overflow
+			if s[0]-'0' > 3 {
+				return 0, true
+			}
 			n = d(0)*1e4 + d(1)*1e3 + d(2)*1e2 + d(3)*1e1 + d(4)
 			if n < 0 {
 				return 0, true
@@ -214,6 +226,9 @@ func I32[S []byte | string](s S) (n int32, overflow bool) {
 				d(7)*1e2 + d(8)*1e1 +
 				d(9)), false
 		case 11: // This case can overflow
+			if s[1]-'0' > 2 {
+				return 0, true
+			}
 			n = d(1)*1e9 + d(2)*1e8 +
 				d(3)*1e7 + d(4)*1e6 +
 				d(5)*1e5 + d(6)*1e4 +
@@ -258,6 +273,9 @@ func I32[S []byte | string](s S) (n int32, overflow bool) {
 				d(6)*1e2 + d(7)*1e1 +
 				d(8), false
 		case 10: // This case can overflow
+			if s[0]-'0' > 2 {
+				return 0, true
+			}
 			n = d(0)*1e9 + d(1)*1e8 +
 				d(2)*1e7 + d(3)*1e6 +
 				d(4)*1e5 + d(5)*1e4 +
-- 
2.43.0


From 1f9ec137de1a8f45248cb56bd6518972522a6bcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:31 +0000
Subject: [PATCH 02/32] fix: decode UTF-16 surrogate pairs in string escape
 sequences

\ud83d\ude00 was unescaped to two replacement characters instead of U+1F600.
---
 internal/unescape/unescape.go | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/internal/unescape/unescape.go b/internal/unescape/unescape.go
index c967696..15afdd0 100644
--- a/internal/unescape/unescape.go
+++ b/internal/unescape/unescape.go
@@ -45,6 +45,20 @@ func Valid[S []byte | string, O []byte | string](str S) O {
 				buf = append(buf, byte(r))
 			case r <= rune2Max:
 				buf = append(buf, t2|byte(r>>6), tx|byte(r)&maskx)
+			case surrogateMin <= r && r < surrogateLow && len(s) >= 12 &&
+				s[6] == '\\' && s[7] == 'u':
+				low := uint32(lut[s[8]]<<12 + lut[s[9]]<<8 + lut[s[10]]<<4 + lut[s[11]])
+				if low < surrogateLow || low > surrogateMax {
+					buf = append(buf, RuneError...) // Unpaired high surrogate
+					break
+				}
+				// Valid surrogate pair
+				r = (r-surrogateMin)<<10 | (low - surrogateLow) + surrogateSelf
+				buf = append(
+					buf, t4|byte(r>>18), tx|byte(r>>12)&maskx,
+					tx|byte(r>>6)&maskx, tx|byte(r)&maskx,
+				)
+				s = s[6:]
 			case r > maxRune, surrogateMin <= r && r <= surrogateMax:
 				buf = append(buf, RuneError...) // Error placeholder rune
 			default:
@@ -130,6 +144,11 @@ const (
 	// Code points in the surrogate range are not valid for UTF-8.
 	surrogateMin, surrogateMax = 0xD800, 0xDFFF
 
+	// surrogateLow is the first low surrogate (the second half of a surrogate pair).
+	surrogateLow = 0xDC00
+	// surrogateSelf is the first code point encoded by a surrogate pair.
+	surrogateSelf = 0x10000
+
 	tx, t2, t3, t4               = 0b10000000, 0b11000000, 0b11100000, 0b11110000
 	maskx                        = 0b00111111
 	rune1Max, rune2Max, rune3Max = 1<<7 - 1, 1<<11 - 1, 1<<16 - 1
-- 
2.43.0


From 91ea3bd2a792e5cfa1bfe483b2b7f3a37e6b6093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:54 +0000
Subject: [PATCH 03/32] fix: validate quoted numbers and integer map keys
 entirely

The remainder returned by jsonnum.ReadNumber was ignored, hence "12abc" was
accepted as a Number, as an integer map key and for fields tagged with the
string option. An empty string caused an index out of range panic and escape
sequences weren't unescaped.
---
 jscandec.go | 74 +++++++++++++++++++++++++++--------------------------
 1 file changed, 38 insertions(+), 36 deletions(-)

diff --git a/jscandec.go b/jscandec.go
index f69ede0..5351c9d 100644
--- a/jscandec.go
+++ b/jscandec.go
@@ -1050,16 +1050,15 @@ func (d *Decoder[S, T]) Decode(
 					*(*string)(p) = string(val)
 
 				case ExpectTypeNumber:
-					tv := s[tokens[ti].Index+1 : tokens[ti].End-1]
-					if _, rc := jsonnum.ReadNumber(tv); rc == jsonnum.ReturnCodeErr {
+					tv, rc := readQuotedNumber(s[tokens[ti].Index+1 : tokens[ti].End-1])
+					if rc == jsonnum.ReturnCodeErr {
 						errIndex, err = tokens[ti].Index, ErrUnexpectedValue
 						return true
 					}
 					*(*Number)(p) = Number(tv)
 
 				case ExpectTypeFloat32String:
-					tv := s[tokens[ti].Index+1 : tokens[ti].End-1]
-					_, rc := jsonnum.ReadNumber(tv)
+					tv, rc := readQuotedNumber(s[tokens[ti].Index+1 : tokens[ti].End-1])
 					if rc == jsonnum.ReturnCodeErr {
 						errIndex, err = tokens[ti].Index, ErrUnexpectedValue
 						return true
@@ -1071,8 +1070,7 @@ func (d *Decoder[S, T]) Decode(
 					}
 					*(*float32)(p) = v
 				case ExpectTypeFloat64String:
-					tv := s[tokens[ti].Index+1 : tokens[ti].End-1]
-					_, rc := jsonnum.ReadNumber(tv)
+					tv, rc := readQuotedNumber(s[tokens[ti].Index+1 : tokens[ti].End-1])
 					if rc == jsonnum.ReturnCodeErr {
 						errIndex, err = tokens[ti].Index, ErrUnexpectedValue
 						return true
@@ -1084,8 +1082,7 @@ func (d *Decoder[S, T]) Decode(
 					}
 					*(*float64)(p) = v
 				case ExpectTypeIntString:
-					tv := s[tokens[ti].Index+1 : tokens[ti].End-1]
-					_, rc := jsonnum.ReadNumber(tv)
+					tv, rc := readQuotedNumber(s[tokens[ti].Index+1 : tokens[ti].End-1])
 					if rc != jsonnum.ReturnCodeInteger {
 						errIndex, err = tokens[ti].Index, ErrUnexpectedValue
 						return true
@@ -1097,8 +1094,7 @@ func (d *Decoder[S, T]) Decode(
 					}
 					*(*int)(p) = v
 				case ExpectTypeInt8String:
-					tv := s[tokens[ti].Index+1 : tokens[ti].End-1]
-					_, rc := jsonnum.ReadNumber(tv)
+					tv, rc := readQuotedNumber(s[tokens[ti].Index+1 : tokens[ti].End-1])
 					if rc != jsonnum.ReturnCodeInteger {
 						errIndex, err = tokens[ti].Index, ErrUnexpectedValue
 						return true
@@ -1110,8 +1106,7 @@ func (d *Decoder[S, T]) Decode(
 					}
 					*(*int8)(p) = v
 				case ExpectTypeInt16String:
-					tv := s[tokens[ti].Index+1 : tokens[ti].End-1]
-					_, rc := jsonnum.ReadNumber(tv)
+					tv, rc := readQuotedNumber(s[tokens[ti].Index+1 : tokens[ti].End-1])
 					if rc != jsonnum.ReturnCodeInteger {
 						errIndex, err = tokens[ti].Index, ErrUnexpectedValue
 						return true
@@ -1123,8 +1118,7 @@ func (d *Decoder[S, T]) Decode(
 					}
 					*(*int16)(p) = v
 				case ExpectTypeInt32String:
-					tv := s[tokens[ti].Index+1 : tokens[ti].End-1]
-					_, rc := jsonnum.ReadNumber(tv)
+					tv, rc := readQuotedNumber(s[tokens[ti].Index+1 : tokens[ti].End-1])
 					if rc != jsonnum.ReturnCodeInteger {
 						errIndex, err = tokens[ti].Index, ErrUnexpectedValue
 						return true
@@ -1136,8 +1130,7 @@ func (d *Decoder[S, T]) Decode(
 					}
 					*(*int32)(p) = v
 				case ExpectTypeInt64String:
-					tv := s[tokens[ti].Index+1 : tokens[ti].End-1]
-					_, rc := jsonnum.ReadNumber(tv)
+					tv, rc := readQuotedNumber(s[tokens[ti].Index+1 : tokens[ti].End-1])
 					if rc != jsonnum.ReturnCodeInteger {
 						errIndex, err = tokens[ti].Index, ErrUnexpectedValue
 						return true
@@ -1149,8 +1142,7 @@ func (d *Decoder[S, T]) Decode(
 					}
 					*(*int64)(p) = v
 				case ExpectTypeUintString:
-					tv := s[tokens[ti].Index+1 : tokens[ti].End-1]
-					_, rc := jsonnum.ReadNumber(tv)
+					tv, rc := readQuotedNumber(s[tokens[ti].Index+1 : tokens[ti].End-1])
 					if rc != jsonnum.ReturnCodeInteger || tv[0] == '-' {
 						errIndex, err = tokens[ti].Index, ErrUnexpectedValue
 						return true
@@ -1162,8 +1154,7 @@ func (d *Decoder[S, T]) Decode(
 					}
 					*(*uint)(p) = v
 				case ExpectTypeUint8String:
-					tv := s[tokens[ti].Index+1 : tokens[ti].End-1]
-					_, rc := jsonnum.ReadNumber(tv)
+					tv, rc := readQuotedNumber(s[tokens[ti].Index+1 : tokens[ti].End-1])
 					if rc != jsonnum.ReturnCodeInteger || tv[0] == '-' {
 						errIndex, err = tokens[ti].Index, ErrUnexpectedValue
 						return true
@@ -1175,8 +1166,7 @@ func (d *Decoder[S, T]) Decode(
 					}
 					*(*uint8)(p) = v
 				case ExpectTypeUint16String:
-					tv := s[tokens[ti].Index+1 : tokens[ti].End-1]
-					_, rc := jsonnum.ReadNumber(tv)
+					tv, rc := readQuotedNumber(s[tokens[ti].Index+1 : tokens[ti].End-1])
 					if rc != jsonnum.ReturnCodeInteger || tv[0] == '-' {
 						errIndex, err = tokens[ti].Index, ErrUnexpectedValue
 						return true
@@ -1188,8 +1178,7 @@ func (d *Decoder[S, T]) Decode(
 					}
 					*(*uint16)(p) = v
 				case ExpectTypeUint32String:
-					tv := s[tokens[ti].Index+1 : tokens[ti].End-1]
-					_, rc := jsonnum.ReadNumber(tv)
+					tv, rc := readQuotedNumber(s[tokens[ti].Index+1 : tokens[ti].End-1])
 					if rc != jsonnum.ReturnCodeInteger || tv[0] == '-' {
 						errIndex, err = tokens[ti].Index, ErrUnexpectedValue
 						return true
@@ -1201,8 +1190,7 @@ func (d *Decoder[S, T]) Decode(
 					}
 					*(*uint32)(p) = v
 				case ExpectTypeUint64String:
-					tv := s[tokens[ti].Index+1 : tokens[ti].End-1]
-					_, rc := jsonnum.ReadNumber(tv)
+					tv, rc := readQuotedNumber(s[tokens[ti].Index+1 : tokens[ti].End-1])
 					if rc != jsonnum.ReturnCodeInteger || tv[0] == '-' {
 						errIndex, err = tokens[ti].Index, ErrUnexpectedValue
 						return true
@@ -2379,7 +2367,7 @@ func (d *Decoder[S, T]) Decode(
 						}
 
 					case ExpectTypeInt:
-						_, rc := jsonnum.ReadNumber(key)
+						key, rc := readQuotedNumber(key)
 						if rc != jsonnum.ReturnCodeInteger {
 							errIndex, err = tokens[ti].Index, ErrUnexpectedValue
 							return true
@@ -2392,7 +2380,7 @@ func (d *Decoder[S, T]) Decode(
 						pNewData = mapassign(typMap, pMap, noescape(unsafe.Pointer(&v)))
 
 					case ExpectTypeInt8:
-						_, rc := jsonnum.ReadNumber(key)
+						key, rc := readQuotedNumber(key)
 						if rc != jsonnum.ReturnCodeInteger {
 							errIndex, err = tokens[ti].Index, ErrUnexpectedValue
 							return true
@@ -2405,7 +2393,7 @@ func (d *Decoder[S, T]) Decode(
 						pNewData = mapassign(typMap, pMap, noescape(unsafe.Pointer(&v)))
 
 					case ExpectTypeInt16:
-						_, rc := jsonnum.ReadNumber(key)
+						key, rc := readQuotedNumber(key)
 						if rc != jsonnum.ReturnCodeInteger {
 							errIndex, err = tokens[ti].Index, ErrUnexpectedValue
 							return true
@@ -2418,7 +2406,7 @@ func (d *Decoder[S, T]) Decode(
 						pNewData = mapassign(typMap, pMap, noescape(unsafe.Pointer(&v)))
 
 					case ExpectTypeInt32:
-						_, rc := jsonnum.ReadNumber(key)
+						key, rc := readQuotedNumber(key)
 						if rc != jsonnum.ReturnCodeInteger {
 							errIndex, err = tokens[ti].Index, ErrUnexpectedValue
 							return true
@@ -2431,7 +2419,7 @@ func (d *Decoder[S, T]) Decode(
 						pNewData = mapassign(typMap, pMap, noescape(unsafe.Pointer(&v)))
 
 					case ExpectTypeInt64:
-						_, rc := jsonnum.ReadNumber(key)
+						key, rc := readQuotedNumber(key)
 						if rc != jsonnum.ReturnCodeInteger {
 							errIndex, err = tokens[ti].Index, ErrUnexpectedValue
 							return true
@@ -2444,7 +2432,7 @@ func (d *Decoder[S, T]) Decode(
 						pNewData = mapassign(typMap, pMap, noescape(unsafe.Pointer(&v)))
 
 					case ExpectTypeUint:
-						_, rc := jsonnum.ReadNumber(key)
+						key, rc := readQuotedNumber(key)
 						if rc != jsonnum.ReturnCodeInteger || key[0] == '-' {
 							errIndex, err = tokens[ti].Index, ErrUnexpectedValue
 							return true
@@ -2457,7 +2445,7 @@ func (d *Decoder[S, T]) Decode(
 						pNewData = mapassign(typMap, pMap, noescape(unsafe.Pointer(&v)))
 
 					case ExpectTypeUint8:
-						_, rc := jsonnum.ReadNumber(key)
+						key, rc := readQuotedNumber(key)
 						if rc != jsonnum.ReturnCodeInteger || key[0] == '-' {
 							errIndex, err = tokens[ti].Index, ErrUnexpectedValue
 							return true
@@ -2470,7 +2458,7 @@ func (d *Decoder[S, T]) Decode(
 						pNewData = mapassign(typMap, pMap, noescape(unsafe.Pointer(&v)))
 
 					case ExpectTypeUint16:
-						_, rc := jsonnum.ReadNumber(key)
+						key, rc := readQuotedNumber(key)
 						if rc != jsonnum.ReturnCodeInteger || key[0] == '-' {
 							errIndex, err = tokens[ti].Index, ErrUnexpectedValue
 							return true
@@ -2483,7 +2471,7 @@ func (d *Decoder[S, T]) Decode(
 						pNewData = mapassign(typMap, pMap, noescape(unsafe.Pointer(&v)))
 
 					case ExpectTypeUint32:
-						_, rc := jsonnum.ReadNumber(key)
+						key, rc := readQuotedNumber(key)
 						if rc != jsonnum.ReturnCodeInteger || key[0] == '-' {
 							errIndex, err = tokens[ti].Index, ErrUnexpectedValue
 							return true
@@ -2496,7 +2484,7 @@ func (d *Decoder[S, T]) Decode(
 						pNewData = mapassign(typMap, pMap, noescape(unsafe.Pointer(&v)))
 
 					case ExpectTypeUint64:
-						_, rc := jsonnum.ReadNumber(key)
+						key, rc := readQuotedNumber(key)
 						if rc != jsonnum.ReturnCodeInteger || key[0] == '-' {
 							errIndex, err = tokens[ti].Index, ErrUnexpectedValue
 							return true
@@ -2723,6 +2711,20 @@ func (d *Decoder[S, T]) Decode(
 	return -1, nil
 }
 
+// readQuotedNumber unescapes the contents of a JSON string and makes sure that the
+// entire string is a valid JSON number, otherwise returns jsonnum.ReturnCodeErr.
+func readQuotedNumber[S []byte | string](str S) (S, jsonnum.ReturnCode) {
+	str = unescape.Valid[S, S](str)
+	if len(str) < 1 {
+		return str, jsonnum.ReturnCodeErr
+	}
+	trailing, rc := jsonnum.ReadNumber(str)
+	if len(trailing) > 0 {
+		return str, jsonnum.ReturnCodeErr
+	}
+	return str, rc
+}
+
 type sliceHeader struct {
 	Data     unsafe.Pointer
 	Len, Cap uintptr
-- 
2.43.0


From 5a93f79c99992532443cc6436b6bc3d0d9ee5a2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:06 +0000
Subject: [PATCH 04/32] fix: skip the entire object when decoding into an empty
 struct

The closing token of the object was left behind and terminated the parent.
---
 jscandec.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jscandec.go b/jscandec.go
index 5351c9d..c6c1a9f 100644
--- a/jscandec.go
+++ b/jscandec.go
@@ -2088,7 +2088,7 @@ func (d *Decoder[S, T]) Decode(
 			case jscan.TokenTypeObject:
 				switch d.stackExp[si].Type {
 				case ExpectTypeEmptyStruct:
-					ti = tokens[ti].End // Skip object value
+					ti = tokens[ti].End + 1 // Skip object value
 					goto ON_VAL_END
 				case ExpectTypeAny:
 					v, tail, errDecode := decodeAny(s, tokens[ti:])
-- 
2.43.0


From 0cd2e0d9d151b6b1268273da22fa3b7632db1f52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:17 +0000
Subject: [PATCH 05/32] fix: skip the entire value of an unknown field

The scan for the end of the value ignored arrays and left the parent object at
the end of the first object nested in the value.
---
 jscandec.go | 24 +++++++++---------------
 1 file changed, 9 insertions(+), 15 deletions(-)

diff --git a/jscandec.go b/jscandec.go
index c6c1a9f..b2a1975 100644
--- a/jscandec.go
+++ b/jscandec.go
@@ -2305,22 +2305,16 @@ func (d *Decoder[S, T]) Decode(
 							}
 							// Skip value, go to the next key
 							ti++
-							for l := 0; ; ti++ {
-								switch tokens[ti].Type {
-								case jscan.TokenTypeKey:
-									if l < 1 {
-										continue SCAN_KEYVALS
-									}
-								case jscan.TokenTypeObject:
-									l++
-								case jscan.TokenTypeObjectEnd:
-									l--
-									if l < 1 {
-										ti--
-										break SCAN_KEYVALS
-									}
-								}
+							switch tokens[ti].Type {
+							case jscan.TokenTypeObject, jscan.TokenTypeArray:
+								ti = tokens[ti].End
+							}
+							if tokens[ti+1].Type == jscan.TokenTypeObjectEnd {
+								// No more keys left, let the end of the object be next
+								break SCAN_KEYVALS
 							}
+							ti++
+							continue SCAN_KEYVALS
 						}
 						si = frameIndex
 						if si == noParentFrame {
-- 
2.43.0


From 0a20e755565026dc54791ba0d22f1ee9fabea27b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:45 +0000
Subject: [PATCH 06/32] fix: finish the parent of a pointer when its value ends

Struct fields following a pointer field were rejected and every element of a
slice of pointers was written to the first element.
---
 jscandec.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/jscandec.go b/jscandec.go
index b2a1975..f4bc63b 100644
--- a/jscandec.go
+++ b/jscandec.go
@@ -2619,7 +2619,9 @@ func (d *Decoder[S, T]) Decode(
 			if siCon := d.stackExp[si].ParentFrameIndex; siCon != noParentFrame {
 				switch d.stackExp[siCon].Type {
 				case ExpectTypePtr:
-					si--
+					// The end of the value is also the end of the pointer.
+					si = siCon
+					goto ON_VAL_END
 				case ExpectTypeArray:
 					d.stackExp[si].Len++
 					if d.stackExp[si].Len >= d.stackExp[si].Cap {
-- 
2.43.0


From 782d624baef75bfeaabde53cb355dee4497f8d36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:10 +0000
Subject: [PATCH 07/32] fix: decode into the existing value of a non-nil
 pointer

encoding/json reuses the value a pointer already points to, Decode replaced it by
a newly allocated zero value and lost fields not mentioned in the input.
---
 jscandec.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/jscandec.go b/jscandec.go
index f4bc63b..d6031bf 100644
--- a/jscandec.go
+++ b/jscandec.go
@@ -359,8 +359,7 @@ func (t ExpectType) String() string {
 // otherwise returns true.
 func (t ExpectType) isElemComposite() bool {
 	switch t {
-	case ExpectTypePtr,
-		ExpectTypeArrayLen0, // Zero-length arrays require no memory
+	case ExpectTypeArrayLen0, // Zero-length arrays require no memory
 		ExpectTypeEmptyStruct,
 		ExpectTypeBool,
 		ExpectTypeStr,
@@ -2662,6 +2661,9 @@ func (d *Decoder[S, T]) Decode(
 				si++
 				if d.stackExp[si].Size == 0 {
 					*(*unsafe.Pointer)(p) = emptyStructAddr
+				} else if dp := *(*unsafe.Pointer)(p); dp != nil {
+					// Decode into the existing value.
+					d.stackExp[si].Dest = dp
 				} else {
 					dp := mallocgc(d.stackExp[si].Size, d.stackExp[si].Typ, true)
 					d.stackExp[si].Dest = dp
-- 
2.43.0


From 8c24079661b8280a47333c79aeae8028a95bf6e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:34 +0000
Subject: [PATCH 08/32] fix: never merge map values into existing ones

Values of existing and duplicate keys were merged into instead of being replaced,
as encoding/json does, unless they were structs.
---
 jscandec.go | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/jscandec.go b/jscandec.go
index d6031bf..6cee444 100644
--- a/jscandec.go
+++ b/jscandec.go
@@ -2501,11 +2501,8 @@ func (d *Decoder[S, T]) Decode(
 
 					d.stackExp[si].Dest = pNewData
 
-					// Zero struct values
-					if d.stackExp[si].Type == ExpectTypeStruct ||
-						d.stackExp[si].Type == ExpectTypeStructRecur {
-						typedmemclr(typVal, pNewData)
-					}
+					// Zero the value, map values are never merged into existing ones.
+					typedmemclr(typVal, pNewData)
 
 				default:
 					errIndex, err = tokens[ti].Index, ErrUnexpectedValue
-- 
2.43.0


From 6ee4fb881f3714a433138e6152b7a361ebdc53a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:46 +0000
Subject: [PATCH 09/32] fix: add to the existing map when decoding into
 map[string]string

The existing map was replaced and all its entries were lost.
---
 jscandec.go | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/jscandec.go b/jscandec.go
index 6cee444..c0fc1df 100644
--- a/jscandec.go
+++ b/jscandec.go
@@ -2183,12 +2183,12 @@ func (d *Decoder[S, T]) Decode(
 					p := unsafe.Pointer(
 						uintptr(d.stackExp[si].Dest) + d.stackExp[si].Offset,
 					)
-					if tokens[ti].Elements == 0 {
-						ti += 2
-						*(*map[string]string)(p) = make(map[string]string, 0)
-						goto ON_VAL_END
+					m := *(*map[string]string)(p)
+					if m == nil {
+						// Map not yet initialized, initialize map.
+						m = make(map[string]string, tokens[ti].Elements)
+						*(*map[string]string)(p) = m
 					}
-					m := make(map[string]string, tokens[ti].Elements)
 					tiEnd := tokens[ti].End
 
 					for ti++; ti < tiEnd; ti += 2 {
@@ -2209,7 +2209,6 @@ func (d *Decoder[S, T]) Decode(
 						m[keyUnescaped] = unescape.Valid[S, string](value)
 					}
 					ti++
-					*(*map[string]string)(p) = m
 					goto ON_VAL_END
 
 				case ExpectTypeStruct:
-- 
2.43.0


From 3d056be7fef17edc96dae0c4e8436933580968bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:21 +0000
Subject: [PATCH 10/32] fix: preserve the sign of negative zero in floats

The fast path for short integers turned -0 into 0.
---
 jscandec.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/jscandec.go b/jscandec.go
index c0fc1df..f668faf 100644
--- a/jscandec.go
+++ b/jscandec.go
@@ -888,7 +888,8 @@ func (d *Decoder[S, T]) Decode(
 					*(*int64)(p) = v
 
 				case ExpectTypeFloat32:
-					if tokens[ti].End-tokens[ti].Index < len("16777216") {
+					if tokens[ti].End-tokens[ti].Index < len("16777216") &&
+						string(s[tokens[ti].Index:tokens[ti].End]) != "-0" {
 						// Numbers below this length are guaranteed to be smaller 1<<24
 						// And float32(i32) is faster than calling parseFloat32
 						i32, errParse := tokens[ti].Int32(s)
@@ -907,7 +908,8 @@ func (d *Decoder[S, T]) Decode(
 					}
 
 				case ExpectTypeFloat64:
-					if tokens[ti].End-tokens[ti].Index < len("9007199254740992") {
+					if tokens[ti].End-tokens[ti].Index < len("9007199254740992") &&
+						string(s[tokens[ti].Index:tokens[ti].End]) != "-0" {
 						// Numbers below this length are guaranteed to be smaller 1<<53
 						// And float64(i64) is faster than calling parseFloat64
 						i64, errParse := tokens[ti].Int64(s)
@@ -1983,7 +1985,8 @@ func (d *Decoder[S, T]) Decode(
 							}
 							sl[i] = v
 						case jscan.TokenTypeInteger:
-							if tokens[i].End-tokens[i].Index < len("16777216") {
+							if tokens[i].End-tokens[i].Index < len("16777216") &&
+								string(s[tokens[i].Index:tokens[i].End]) != "-0" {
 								// Numbers below this length are guaranteed to be smaller
 								// 1<<24 and float32(i32) is faster than parseFloat32.
 								i32, errParse := tokens[i].Int32(s)
@@ -2045,7 +2048,8 @@ func (d *Decoder[S, T]) Decode(
 							}
 							sl[i] = v
 						case jscan.TokenTypeInteger:
-							if tokens[i].End-tokens[i].Index < len("9007199254740992") {
+							if tokens[i].End-tokens[i].Index < len("9007199254740992") &&
+								string(s[tokens[i].Index:tokens[i].End]) != "-0" {
 								// Numbers below this length are guaranteed to be smaller
 								// 1<<53a and float64(i64) is faster than parseFloat64.
 								v, errParse := tokens[i].Int64(s)
-- 
2.43.0


From 7e5bf6792389b50147917107a349ccdcbbe934ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:54 +0000
Subject: [PATCH 11/32] fix: null has no effect on scalar values

As documented by encoding/json, null only resets interfaces, maps, pointers and
slices. Decode zeroed booleans, numbers and strings, also as elements of slices.
---
 jscandec.go | 172 +++++++++++++---------------------------------------
 1 file changed, 41 insertions(+), 131 deletions(-)

diff --git a/jscandec.go b/jscandec.go
index f668faf..d03bf6f 100644
--- a/jscandec.go
+++ b/jscandec.go
@@ -1234,36 +1234,6 @@ func (d *Decoder[S, T]) Decode(
 					// Skip
 				case ExpectTypePtr, ExpectTypePtrRecur:
 					*(*unsafe.Pointer)(p) = nil
-				case ExpectTypeBool:
-					*(*bool)(p) = zeroBool
-				case ExpectTypeStr:
-					*(*string)(p) = zeroStr
-				case ExpectTypeNumber:
-					*(*Number)(p) = ""
-				case ExpectTypeFloat32:
-					*(*float32)(p) = zeroFloat32
-				case ExpectTypeFloat64:
-					*(*float64)(p) = zeroFloat64
-				case ExpectTypeInt:
-					*(*int)(p) = zeroInt
-				case ExpectTypeInt8:
-					*(*int8)(p) = zeroInt8
-				case ExpectTypeInt16:
-					*(*int16)(p) = zeroInt16
-				case ExpectTypeInt32:
-					*(*int32)(p) = zeroInt32
-				case ExpectTypeInt64:
-					*(*int64)(p) = zeroInt64
-				case ExpectTypeUint:
-					*(*uint)(p) = zeroUint
-				case ExpectTypeUint8:
-					*(*uint8)(p) = zeroUint8
-				case ExpectTypeUint16:
-					*(*uint16)(p) = zeroUint16
-				case ExpectTypeUint32:
-					*(*uint32)(p) = zeroUint32
-				case ExpectTypeUint64:
-					*(*uint64)(p) = zeroUint64
 				case ExpectTypeSliceBool:
 					*(*[]bool)(p) = nil
 				case ExpectTypeSliceString:
@@ -1294,6 +1264,8 @@ func (d *Decoder[S, T]) Decode(
 					*(*[]uint64)(p) = nil
 				case ExpectTypeJSONUnmarshaler:
 					goto ON_JSON_UNMARSHALER
+				default:
+					// Null has no effect on any other type
 				}
 				ti++
 				goto ON_VAL_END
@@ -1470,17 +1442,13 @@ func (d *Decoder[S, T]) Decode(
 					}
 
 					sl := *(*[]bool)(p)
-					if cap(sl) < elems {
-						sl = make([]bool, elems)
-					} else {
-						sl = sl[:elems]
-					}
+					sl = resizeSlice(sl, elems)
 
 					tokens := tokens[ti+1 : tokens[ti].End]
 					for i := range tokens {
 						switch tokens[i].Type {
 						case jscan.TokenTypeNull:
-							sl[i] = false
+							// No effect
 						case jscan.TokenTypeTrue:
 							sl[i] = true
 						case jscan.TokenTypeFalse:
@@ -1507,17 +1475,13 @@ func (d *Decoder[S, T]) Decode(
 					}
 
 					sl := *(*[]string)(p)
-					if cap(sl) < elems {
-						sl = make([]string, elems)
-					} else {
-						sl = sl[:elems]
-					}
+					sl = resizeSlice(sl, elems)
 
 					tokens := tokens[ti+1 : tokens[ti].End]
 					for i := range tokens {
 						switch tokens[i].Type {
 						case jscan.TokenTypeNull:
-							sl[i] = ""
+							// No effect
 						case jscan.TokenTypeString:
 							sl[i] = unescape.Valid[S, string](
 								s[tokens[i].Index+1 : tokens[i].End-1],
@@ -1544,17 +1508,13 @@ func (d *Decoder[S, T]) Decode(
 					}
 
 					sl := *(*[]int)(p)
-					if cap(sl) < elems {
-						sl = make([]int, elems)
-					} else {
-						sl = sl[:elems]
-					}
+					sl = resizeSlice(sl, elems)
 
 					tokens := tokens[ti+1 : tokens[ti].End]
 					for i := range tokens {
 						switch tokens[i].Type {
 						case jscan.TokenTypeNull:
-							sl[i] = 0
+							// No effect
 						case jscan.TokenTypeInteger:
 							v, errParse := d.parseInt(s[tokens[i].Index:tokens[i].End])
 							if errParse != nil {
@@ -1584,17 +1544,13 @@ func (d *Decoder[S, T]) Decode(
 					}
 
 					sl := *(*[]int8)(p)
-					if cap(sl) < elems {
-						sl = make([]int8, elems)
-					} else {
-						sl = sl[:elems]
-					}
+					sl = resizeSlice(sl, elems)
 
 					tokens := tokens[ti+1 : tokens[ti].End]
 					for i := range tokens {
 						switch tokens[i].Type {
 						case jscan.TokenTypeNull:
-							sl[i] = 0
+							// No effect
 						case jscan.TokenTypeInteger:
 							v, overflow := atoi.I8(s[tokens[i].Index:tokens[i].End])
 							if overflow {
@@ -1624,17 +1580,13 @@ func (d *Decoder[S, T]) Decode(
 					}
 
 					sl := *(*[]int16)(p)
-					if cap(sl) < elems {
-						sl = make([]int16, elems)
-					} else {
-						sl = sl[:elems]
-					}
+					sl = resizeSlice(sl, elems)
 
 					tokens := tokens[ti+1 : tokens[ti].End]
 					for i := range tokens {
 						switch tokens[i].Type {
 						case jscan.TokenTypeNull:
-							sl[i] = 0
+							// No effect
 						case jscan.TokenTypeInteger:
 							v, overflow := atoi.I16(s[tokens[i].Index:tokens[i].End])
 							if overflow {
@@ -1664,17 +1616,13 @@ func (d *Decoder[S, T]) Decode(
 					}
 
 					sl := *(*[]int32)(p)
-					if cap(sl) < elems {
-						sl = make([]int32, elems)
-					} else {
-						sl = sl[:elems]
-					}
+					sl = resizeSlice(sl, elems)
 
 					tokens := tokens[ti+1 : tokens[ti].End]
 					for i := range tokens {
 						switch tokens[i].Type {
 						case jscan.TokenTypeNull:
-							sl[i] = 0
+							// No effect
 						case jscan.TokenTypeInteger:
 							v, overflow := atoi.I32(s[tokens[i].Index:tokens[i].End])
 							if overflow {
@@ -1704,17 +1652,13 @@ func (d *Decoder[S, T]) Decode(
 					}
 
 					sl := *(*[]int64)(p)
-					if cap(sl) < elems {
-						sl = make([]int64, elems)
-					} else {
-						sl = sl[:elems]
-					}
+					sl = resizeSlice(sl, elems)
 
 					tokens := tokens[ti+1 : tokens[ti].End]
 					for i := range tokens {
 						switch tokens[i].Type {
 						case jscan.TokenTypeNull:
-							sl[i] = 0
+							// No effect
 						case jscan.TokenTypeInteger:
 							v, overflow := atoi.I64(s[tokens[i].Index:tokens[i].End])
 							if overflow {
@@ -1744,17 +1688,13 @@ func (d *Decoder[S, T]) Decode(
 					}
 
 					sl := *(*[]uint)(p)
-					if cap(sl) < elems {
-						sl = make([]uint, elems)
-					} else {
-						sl = sl[:elems]
-					}
+					sl = resizeSlice(sl, elems)
 
 					tokens := tokens[ti+1 : tokens[ti].End]
 					for i := range tokens {
 						switch tokens[i].Type {
 						case jscan.TokenTypeNull:
-							sl[i] = 0
+							// No effect
 						case jscan.TokenTypeInteger:
 							if s[tokens[i].Index] == '-' {
 								errIndex, err = tokens[i].Index, ErrUnexpectedValue
@@ -1788,17 +1728,13 @@ func (d *Decoder[S, T]) Decode(
 					}
 
 					sl := *(*[]uint8)(p)
-					if cap(sl) < elems {
-						sl = make([]uint8, elems)
-					} else {
-						sl = sl[:elems]
-					}
+					sl = resizeSlice(sl, elems)
 
 					tokens := tokens[ti+1 : tokens[ti].End]
 					for i := range tokens {
 						switch tokens[i].Type {
 						case jscan.TokenTypeNull:
-							sl[i] = 0
+							// No effect
 						case jscan.TokenTypeInteger:
 							if s[tokens[i].Index] == '-' {
 								errIndex, err = tokens[i].Index, ErrUnexpectedValue
@@ -1832,17 +1768,13 @@ func (d *Decoder[S, T]) Decode(
 					}
 
 					sl := *(*[]uint16)(p)
-					if cap(sl) < elems {
-						sl = make([]uint16, elems)
-					} else {
-						sl = sl[:elems]
-					}
+					sl = resizeSlice(sl, elems)
 
 					tokens := tokens[ti+1 : tokens[ti].End]
 					for i := range tokens {
 						switch tokens[i].Type {
 						case jscan.TokenTypeNull:
-							sl[i] = 0
+							// No effect
 						case jscan.TokenTypeInteger:
 							if s[tokens[i].Index] == '-' {
 								errIndex, err = tokens[i].Index, ErrUnexpectedValue
@@ -1876,17 +1808,13 @@ func (d *Decoder[S, T]) Decode(
 					}
 
 					sl := *(*[]uint32)(p)
-					if cap(sl) < elems {
-						sl = make([]uint32, elems)
-					} else {
-						sl = sl[:elems]
-					}
+					sl = resizeSlice(sl, elems)
 
 					tokens := tokens[ti+1 : tokens[ti].End]
 					for i := range tokens {
 						switch tokens[i].Type {
 						case jscan.TokenTypeNull:
-							sl[i] = 0
+							// No effect
 						case jscan.TokenTypeInteger:
 							if s[tokens[i].Index] == '-' {
 								errIndex, err = tokens[i].Index, ErrUnexpectedValue
@@ -1920,17 +1848,13 @@ func (d *Decoder[S, T]) Decode(
 					}
 
 					sl := *(*[]uint64)(p)
-					if cap(sl) < elems {
-						sl = make([]uint64, elems)
-					} else {
-						sl = sl[:elems]
-					}
+					sl = resizeSlice(sl, elems)
 
 					tokens := tokens[ti+1 : tokens[ti].End]
 					for i := range tokens {
 						switch tokens[i].Type {
 						case jscan.TokenTypeNull:
-							sl[i] = 0
+							// No effect
 						case jscan.TokenTypeInteger:
 							if s[tokens[i].Index] == '-' {
 								errIndex, err = tokens[i].Index, ErrUnexpectedValue
@@ -1964,17 +1888,13 @@ func (d *Decoder[S, T]) Decode(
 					}
 
 					sl := *(*[]float32)(p)
-					if cap(sl) < elems {
-						sl = make([]float32, elems)
-					} else {
-						sl = sl[:elems]
-					}
+					sl = resizeSlice(sl, elems)
 
 					tokens := tokens[ti+1 : tokens[ti].End]
 					for i := range tokens {
 						switch tokens[i].Type {
 						case jscan.TokenTypeNull:
-							sl[i] = 0
+							// No effect
 						case jscan.TokenTypeNumber:
 							v, errParse := d.parseFloat32(
 								s[tokens[i].Index:tokens[i].End],
@@ -2027,17 +1947,13 @@ func (d *Decoder[S, T]) Decode(
 					}
 
 					sl := *(*[]float64)(p)
-					if cap(sl) < elems {
-						sl = make([]float64, elems)
-					} else {
-						sl = sl[:elems]
-					}
+					sl = resizeSlice(sl, elems)
 
 					tokens := tokens[ti+1 : tokens[ti].End]
 					for i := range tokens {
 						switch tokens[i].Type {
 						case jscan.TokenTypeNull:
-							sl[i] = 0
+							// No effect
 						case jscan.TokenTypeNumber:
 							v, errParse := d.parseFloat64(
 								s[tokens[i].Index:tokens[i].End],
@@ -2723,28 +2639,22 @@ func readQuotedNumber[S []byte | string](str S) (S, jsonnum.ReturnCode) {
 	return str, rc
 }
 
+// resizeSlice returns sl resized to length n preserving its elements
+// because null has no effect on them.
+func resizeSlice[E any](sl []E, n int) []E {
+	if cap(sl) >= n {
+		return sl[:n]
+	}
+	c := make([]E, n)
+	copy(c, sl)
+	return c
+}
+
 type sliceHeader struct {
 	Data     unsafe.Pointer
 	Len, Cap uintptr
 }
 
-var (
-	zeroBool    bool
-	zeroStr     string
-	zeroInt     int
-	zeroUint    uint
-	zeroInt8    int8
-	zeroUint8   uint8
-	zeroInt16   int16
-	zeroUint16  uint16
-	zeroInt32   int32
-	zeroUint32  uint32
-	zeroInt64   int64
-	zeroUint64  uint64
-	zeroFloat32 float32
-	zeroFloat64 float64
-)
-
 // fieldFrameIndexByName returns the frame index of the field identified by name
 // or -1 if no field is found. Exact matches are prioritized over
 // case-insensitive matches.
-- 
2.43.0


From 6e9771bafe1e4478df3367758f0439669b081493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:08 +0000
Subject: [PATCH 12/32] fix: zero the elements of a fixed-size array missing in
 the input

As documented by encoding/json, the additional Go array elements are set to zero
values if the JSON array is smaller than the Go array.
---
 jscandec.go | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/jscandec.go b/jscandec.go
index d03bf6f..ab2667a 100644
--- a/jscandec.go
+++ b/jscandec.go
@@ -1297,8 +1297,8 @@ func (d *Decoder[S, T]) Decode(
 					if tokens[ti].Elements < 1 {
 						ti += 2 // Skip over closing TokenArrayEnd
 						// Empty array, no need to allocate memory.
-						// Go will automatically allocate it together with its parent
-						// and zero it.
+						// Zero all elements since none are mentioned in the input.
+						typedmemclr(d.stackExp[si].Typ, p)
 						goto ON_VAL_END
 					}
 					ti++
@@ -2486,6 +2486,17 @@ func (d *Decoder[S, T]) Decode(
 					si = d.stackExp[resetTo.ContainerFrame].ParentFrameIndex
 					continue
 				}
+				siCon := d.stackExp[si].ParentFrameIndex
+				if d.stackExp[siCon].Type == ExpectTypeArray {
+					// Zero the remaining elements not mentioned in the input.
+					for d.stackExp[si].Len < d.stackExp[si].Cap {
+						typedmemclr(d.stackExp[si].Typ, unsafe.Pointer(
+							uintptr(d.stackExp[si].Dest)+d.stackExp[si].Offset,
+						))
+						d.stackExp[si].Len++
+						d.stackExp[si].Offset += d.stackExp[si].Size
+					}
+				}
 				si--
 				goto ON_VAL_END
 			}
-- 
2.43.0


From 55817fb76c6208413e2d27433309c1d9bcdceaf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:33 +0000
Subject: [PATCH 13/32] fix: ignore the dynamic type of an interface value
 passed to Unmarshal

Unmarshal into a non-nil any wrote a value of the dynamic type over the interface
header and corrupted memory.
---
 jscandec.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jscandec.go b/jscandec.go
index ab2667a..237c0b4 100644
--- a/jscandec.go
+++ b/jscandec.go
@@ -485,7 +485,8 @@ func Unmarshal[S []byte | string, T any](s S, t *T) error {
 	}
 	stack := make([]stackFrame[S], 0, 4)
 	var err error
-	stack, err = appendTypeToStack(stack, reflect.TypeOf(*t), DefaultInitOptions)
+	// Use the static type, the dynamic type of a non-nil interface value must be ignored.
+	stack, err = appendTypeToStack(stack, reflect.TypeOf(t).Elem(), DefaultInitOptions)
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From 42d72de667c5c47a2d111d5953764a6f4ab101fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:11 +0000
Subject: [PATCH 14/32] fix: ignore unexported struct fields

Unexported fields were matched by name and written to.
---
 append_type_stack.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/append_type_stack.go b/append_type_stack.go
index 575e0d1..9e8220d 100644
--- a/append_type_stack.go
+++ b/append_type_stack.go
@@ -316,6 +316,10 @@ func appendTypeToStack[S []byte | string](
 
 		for i := 0; i < numFields; i++ {
 			f := t.Field(i)
+			if !f.IsExported() {
+				// Ignore this field.
+				continue
+			}
 			name := f.Name
 			optionString := false
 			if jsonTag := f.Tag.Get("json"); jsonTag != "" {
-- 
2.43.0


From b04017ba631cd406040653e94cc88433f2694c91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:25 +0000
Subject: [PATCH 15/32] fix: parse the options of json struct tags like
 encoding/json

The string option was ignored if it was not the only one and the tag "-," ignored
the field instead of naming it "-".
---
 append_type_stack.go | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/append_type_stack.go b/append_type_stack.go
index 9e8220d..6400459 100644
--- a/append_type_stack.go
+++ b/append_type_stack.go
@@ -323,20 +323,17 @@ func appendTypeToStack[S []byte | string](
 			name := f.Name
 			optionString := false
 			if jsonTag := f.Tag.Get("json"); jsonTag != "" {
-				name = jsonTag
-				if i := strings.IndexByte(jsonTag, ','); i != -1 {
-					name = jsonTag[:i]
-					optionName := jsonTag[i+1:]
-					optionString = optionName == "string"
-				}
-				switch name {
-				case "":
-					// Either there was no tag or no name specified in it.
-					name = f.Name
-				case "-":
+				if jsonTag == "-" {
 					// Ignore this field.
 					continue
 				}
+				tagOptions := strings.Split(jsonTag, ",")
+				if tagOptions[0] != "" {
+					name = tagOptions[0]
+				}
+				for _, optionName := range tagOptions[1:] {
+					optionString = optionString || optionName == "string"
+				}
 			}
 
 			newAtIndex := uint32(len(stack))
-- 
2.43.0


From 7539d4b51e1adcc5bf2dfd1ce5c78acc38f20f0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:40 +0000
Subject: [PATCH 16/32] fix: match field names case-insensitively irrespective
 of their encoded length

"\u212A" (Kelvin sign) equals "k" under Unicode case-folding, yet names of different
lengths in bytes were never compared.
---
 jscandec.go | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/jscandec.go b/jscandec.go
index 237c0b4..3559a82 100644
--- a/jscandec.go
+++ b/jscandec.go
@@ -2693,25 +2693,26 @@ func fieldFrameIndexByName[S []byte | string](fields []fieldStackFrame, name S)
 			}
 		}
 	}
-	// Fallback to case-insensitive search
+	// Fallback to case-insensitive search.
+	// The lengths may differ because folding isn't limited to ASCII ("K" and "\u212A").
 	f := fields
 	eq := strings.EqualFold
 	for ; len(f) >= 4; f = f[4:] { // Try 4 at a time if enough are left
-		if len(f[0].Name) == len(name) && eq(string(f[0].Name), string(name)) {
+		if eq(string(f[0].Name), string(name)) {
 			return f[0].FrameIndex
 		}
-		if len(f[1].Name) == len(name) && eq(string(f[1].Name), string(name)) {
+		if eq(string(f[1].Name), string(name)) {
 			return f[1].FrameIndex
 		}
-		if len(f[2].Name) == len(name) && eq(string(f[2].Name), string(name)) {
+		if eq(string(f[2].Name), string(name)) {
 			return f[2].FrameIndex
 		}
-		if len(f[3].Name) == len(name) && eq(string(f[3].Name), string(name)) {
+		if eq(string(f[3].Name), string(name)) {
 			return f[3].FrameIndex
 		}
 	}
 	for i := range f {
-		if len(f[i].Name) == len(name) && eq(string(f[i].Name), string(name)) {
+		if eq(string(f[i].Name), string(name)) {
 			return f[i].FrameIndex
 		}
 	}
-- 
2.43.0


From 48197e233f8952196bbce71033a06e30ba2c321c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:23 +0000
Subject: [PATCH 17/32] fix: reject non-object elements in slices of empty
 structs

---
 jscandec.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/jscandec.go b/jscandec.go
index 3559a82..e718e98 100644
--- a/jscandec.go
+++ b/jscandec.go
@@ -1419,6 +1419,16 @@ func (d *Decoder[S, T]) Decode(
 					d.stackExp[si].Offset = 0
 
 				case ExpectTypeSliceEmptyStruct:
+					for i := ti + 1; i < tokens[ti].End; i++ {
+						switch tokens[i].Type {
+						case jscan.TokenTypeNull:
+						case jscan.TokenTypeObject:
+							i = tokens[i].End
+						default:
+							errIndex, err = tokens[i].Index, ErrUnexpectedValue
+							return true
+						}
+					}
 					p := unsafe.Pointer(
 						uintptr(d.stackExp[si].Dest) + d.stackExp[si].Offset,
 					)
-- 
2.43.0


From f77773913714de88dc34935922036c04187ec56f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:23 +0000
Subject: [PATCH 18/32] fix: allocate pointers that implement Unmarshaler
 before unmarshaling into them

---
 jscandec.go | 36 ++++++++++++++++++++++++++++++++----
 1 file changed, 32 insertions(+), 4 deletions(-)

diff --git a/jscandec.go b/jscandec.go
index e718e98..21015b2 100644
--- a/jscandec.go
+++ b/jscandec.go
@@ -651,6 +651,27 @@ func determineTextUnmarshalerSupport(t reflect.Type) interfaceSupport {
 	return interfaceSupportNone
 }
 
+// implementsUnmarshaler returns true if values of type t unmarshal themselves.
+func implementsUnmarshaler(t reflect.Type) bool {
+	return determineJSONUnmarshalerSupport(t) != interfaceSupportNone ||
+		determineTextUnmarshalerSupport(t) != interfaceSupportNone
+}
+
+// unmarshalerAt returns a pointer to the value of type t at p that is expected to
+// implement either encoding/json.Unmarshaler or encoding.TextUnmarshaler.
+// If t is a pointer type then the pointer itself is returned, nil pointers are
+// set to a newly allocated zero value.
+func unmarshalerAt(t reflect.Type, p unsafe.Pointer) any {
+	if t.Kind() != reflect.Pointer {
+		return reflect.NewAt(t, p).Interface()
+	}
+	ptr := reflect.NewAt(t, p).Elem()
+	if ptr.IsNil() {
+		ptr.Set(reflect.New(t.Elem()))
+	}
+	return ptr.Interface()
+}
+
 // InitOptions are options for the constructor function NewDecoder[S, T].
 type InitOptions struct {
 	// DisallowStringTagOptOnUnsupportedTypes will make NewDecoder return
@@ -1000,9 +1021,9 @@ func (d *Decoder[S, T]) Decode(
 
 				switch d.stackExp[si].Type {
 				case ExpectTypeTextUnmarshaler:
-					u := reflect.NewAt(
+					u := unmarshalerAt(
 						d.stackExp[si].RType, p,
-					).Interface().(encoding.TextUnmarshaler)
+					).(encoding.TextUnmarshaler)
 					tb := unescape.Valid[S, []byte](
 						s[tokens[ti].Index+1 : tokens[ti].End-1],
 					)
@@ -1263,8 +1284,15 @@ func (d *Decoder[S, T]) Decode(
 					*(*[]uint32)(p) = nil
 				case ExpectTypeSliceUint64:
 					*(*[]uint64)(p) = nil
+				case ExpectTypeTextUnmarshaler:
+					if d.stackExp[si].RType.Kind() == reflect.Pointer {
+						*(*unsafe.Pointer)(p) = nil
+					}
 				case ExpectTypeJSONUnmarshaler:
-					goto ON_JSON_UNMARSHALER
+					if d.stackExp[si].RType.Kind() != reflect.Pointer {
+						goto ON_JSON_UNMARSHALER
+					}
+					*(*unsafe.Pointer)(p) = nil
 				default:
 					// Null has no effect on any other type
 				}
@@ -2627,7 +2655,7 @@ func (d *Decoder[S, T]) Decode(
 					raw = s[tokens[ti].Index:tokens[ti].End]
 					ti++
 				}
-				u := reflect.NewAt(d.stackExp[si].RType, p).Interface().(json.Unmarshaler)
+				u := unmarshalerAt(d.stackExp[si].RType, p).(json.Unmarshaler)
 				if errUnmarshal := u.UnmarshalJSON([]byte(raw)); errUnmarshal != nil {
 					errIndex, err = tkIndex, errUnmarshal
 					return true
-- 
2.43.0


From 5140cd51b7883991a372c57ed6f9f2dc696e947a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:23 +0000
Subject: [PATCH 19/32] fix: return an error for non-empty interface types
 instead of panicking

---
 append_type_stack.go | 7 +++----
 jscandec.go          | 5 +++--
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/append_type_stack.go b/append_type_stack.go
index 6400459..cc91204 100644
--- a/append_type_stack.go
+++ b/append_type_stack.go
@@ -18,6 +18,9 @@ func appendTypeToStack[S []byte | string](
 			Size:             unsafe.Sizeof(struct{ typ, dat uintptr }{}),
 			ParentFrameIndex: noParentFrame,
 		}), nil
+	} else if t.Kind() == reflect.Interface && t.NumMethod() != 0 {
+		// TODO: support non-empty interface types
+		return nil, fmt.Errorf("unsupported type: %v", t)
 	} else if s := determineJSONUnmarshalerSupport(t); s != interfaceSupportNone {
 		return append(stack, stackFrame[S]{
 			Type:             ExpectTypeJSONUnmarshaler,
@@ -37,10 +40,6 @@ func appendTypeToStack[S []byte | string](
 	}
 	switch t.Kind() {
 	case reflect.Interface:
-		if t.NumMethod() != 0 {
-			// TODO:
-			panic("not yet supported")
-		}
 		return append(stack, stackFrame[S]{
 			Type:             ExpectTypeAny,
 			Typ:              getTyp(t),
diff --git a/jscandec.go b/jscandec.go
index 21015b2..a840582 100644
--- a/jscandec.go
+++ b/jscandec.go
@@ -525,9 +525,10 @@ func NewDecoder[S []byte | string, T any](
 		stackExp:  make([]stackFrame[S], 0, 4),
 	}
 
-	var z T
 	var err error
-	d.stackExp, err = appendTypeToStack(d.stackExp, reflect.TypeOf(z), options)
+	d.stackExp, err = appendTypeToStack(
+		d.stackExp, reflect.TypeOf((*T)(nil)).Elem(), options,
+	)
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From c1121e4f9b367547557d00f090ea40af8daefbfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:23 +0000
Subject: [PATCH 20/32] fix: respect Unmarshaler elements and reject
 unsupported map key types

---
 append_type_stack.go | 66 ++++++++++++++++++++++++++++++++++++++++----
 1 file changed, 60 insertions(+), 6 deletions(-)

diff --git a/append_type_stack.go b/append_type_stack.go
index cc91204..3f6968e 100644
--- a/append_type_stack.go
+++ b/append_type_stack.go
@@ -75,7 +75,12 @@ func appendTypeToStack[S []byte | string](
 
 	case reflect.Slice:
 		elem := t.Elem()
-		switch elem.Kind() {
+		elemKind := elem.Kind()
+		if implementsUnmarshaler(elem) {
+			// The type of the elements is irrelevant, they unmarshal themselves.
+			elemKind = reflect.Invalid
+		}
+		switch elemKind {
 		case reflect.Struct:
 			if elem.Size() < 1 {
 				return append(stack, stackFrame[S]{
@@ -223,7 +228,8 @@ func appendTypeToStack[S []byte | string](
 	case reflect.Map:
 		parentIndex := uint32(len(stack))
 		elem := t.Elem()
-		if elem.Kind() == reflect.Struct && elem.Size() > 0 {
+		if elem.Kind() == reflect.Struct && elem.Size() > 0 &&
+			!implementsUnmarshaler(elem) {
 			// Check for recursion
 			for i := range stack {
 				if stack[i].RType == elem {
@@ -243,7 +249,7 @@ func appendTypeToStack[S []byte | string](
 					{
 						newAtIndex := len(stack)
 						var err error
-						stack, err = appendTypeToStack(stack, t.Key(), options)
+						stack, err = appendMapKeyToStack(stack, t.Key(), options)
 						if err != nil {
 							return nil, err
 						}
@@ -255,7 +261,9 @@ func appendTypeToStack[S []byte | string](
 			}
 		}
 
-		if t.Key().Kind() == reflect.String && t.Elem().Kind() == reflect.String {
+		if t.Key().Kind() == reflect.String && elem.Kind() == reflect.String &&
+			elem != tpNumber && !implementsUnmarshaler(elem) &&
+			determineTextUnmarshalerSupport(t.Key()) == interfaceSupportNone {
 			return append(stack, stackFrame[S]{
 				Type:             ExpectTypeMapStringString,
 				Typ:              getTyp(t),
@@ -277,7 +285,7 @@ func appendTypeToStack[S []byte | string](
 		{
 			newAtIndex := len(stack)
 			var err error
-			if stack, err = appendTypeToStack(stack, t.Key(), options); err != nil {
+			if stack, err = appendMapKeyToStack(stack, t.Key(), options); err != nil {
 				return nil, err
 			}
 			// Link map key to the map frame.
@@ -505,7 +513,8 @@ func appendTypeToStack[S []byte | string](
 		parentIndex := uint32(len(stack))
 
 		elem := t.Elem()
-		if elem.Kind() == reflect.Struct && elem.Size() > 0 {
+		if elem.Kind() == reflect.Struct && elem.Size() > 0 &&
+			!implementsUnmarshaler(elem) {
 			// Check for recursion
 			for i := range stack {
 				if stack[i].RType == elem {
@@ -544,6 +553,51 @@ func appendTypeToStack[S []byte | string](
 	return stack, nil
 }
 
+// appendMapKeyToStack appends the frame of a map key type, which is always a single
+// frame, and returns an error if the type isn't supported as a map key.
+func appendMapKeyToStack[S []byte | string](
+	stack []stackFrame[S], t reflect.Type, options *InitOptions,
+) ([]stackFrame[S], error) {
+	if t.Kind() != reflect.Pointer && t.Kind() != reflect.Interface &&
+		determineTextUnmarshalerSupport(t) != interfaceSupportNone {
+		return append(stack, stackFrame[S]{
+			Type:             ExpectTypeTextUnmarshaler,
+			Typ:              getTyp(t),
+			RType:            t,
+			Size:             t.Size(),
+			ParentFrameIndex: noParentFrame,
+		}), nil
+	}
+	// Methods of named key types such as UnmarshalJSON are irrelevant.
+	switch t.Kind() {
+	case reflect.String:
+		t = reflect.TypeOf("")
+	case reflect.Int:
+		t = reflect.TypeOf(int(0))
+	case reflect.Int8:
+		t = reflect.TypeOf(int8(0))
+	case reflect.Int16:
+		t = reflect.TypeOf(int16(0))
+	case reflect.Int32:
+		t = reflect.TypeOf(int32(0))
+	case reflect.Int64:
+		t = reflect.TypeOf(int64(0))
+	case reflect.Uint:
+		t = reflect.TypeOf(uint(0))
+	case reflect.Uint8:
+		t = reflect.TypeOf(uint8(0))
+	case reflect.Uint16:
+		t = reflect.TypeOf(uint16(0))
+	case reflect.Uint32:
+		t = reflect.TypeOf(uint32(0))
+	case reflect.Uint64:
+		t = reflect.TypeOf(uint64(0))
+	default:
+		return nil, fmt.Errorf("unsupported map key type: %v", t)
+	}
+	return appendTypeToStack(stack, t, options)
+}
+
 func getTyp(t reflect.Type) *typ {
 	return (*typ)(((*emptyInterface)(unsafe.Pointer(&t))).ptr)
 }
-- 
2.43.0


From 274f45077e516ad0d8e28c741a9bfb13a6ad186b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:05 +0000
Subject: [PATCH 21/32] fix: restore the state of all frames at the end of
 recursions

Recursive containers nested in other composites of a recursive struct, mutually
recursive structs, recursive structs with a non-zero offset and null elements were
decoded into the wrong memory. Non-recursive structs used by sibling fields were
mistaken for recursive ones. Recursive types without structs overflowed the stack
of NewDecoder and now return an error.
---
 append_type_stack.go |  35 +++++-
 jscandec.go          | 279 +++++++++++++++++++------------------------
 2 files changed, 152 insertions(+), 162 deletions(-)

diff --git a/append_type_stack.go b/append_type_stack.go
index 3f6968e..5b7e42b 100644
--- a/append_type_stack.go
+++ b/append_type_stack.go
@@ -60,6 +60,7 @@ func appendTypeToStack[S []byte | string](
 		stack = append(stack, stackFrame[S]{
 			Type:             ExpectTypeArray,
 			Typ:              getTyp(t),
+			Pending:          t,
 			Size:             t.Size(),
 			ParentFrameIndex: noParentFrame,
 		})
@@ -72,6 +73,7 @@ func appendTypeToStack[S []byte | string](
 		// Link array element to the array frame.
 		stack[newAtIndex].ParentFrameIndex = parentIndex
 		stack[newAtIndex].Cap = t.Len()
+		stack[parentIndex].Pending = nil
 
 	case reflect.Slice:
 		elem := t.Elem()
@@ -92,7 +94,7 @@ func appendTypeToStack[S []byte | string](
 			}
 			// Check for recursion
 			for i := range stack {
-				if stack[i].RType == elem {
+				if stack[i].Pending == elem {
 					// Recursion of type stack[i] detected.
 					// Link recursive frame to the recursion frame.
 					stack[i].Type = ExpectTypeStructRecur
@@ -209,10 +211,14 @@ func appendTypeToStack[S []byte | string](
 			}), nil
 		}
 
+		if isPending(stack, t) {
+			return nil, fmt.Errorf("unsupported recursive type: %v", t)
+		}
 		parentIndex := uint32(len(stack))
 		stack = append(stack, stackFrame[S]{
 			Type:             ExpectTypeSlice,
 			Typ:              getTyp(t),
+			Pending:          t,
 			Size:             t.Size(),
 			ParentFrameIndex: noParentFrame,
 		})
@@ -224,6 +230,7 @@ func appendTypeToStack[S []byte | string](
 
 		// Link slice element to the slice frame.
 		stack[newAtIndex].ParentFrameIndex = parentIndex
+		stack[parentIndex].Pending = nil
 
 	case reflect.Map:
 		parentIndex := uint32(len(stack))
@@ -232,7 +239,7 @@ func appendTypeToStack[S []byte | string](
 			!implementsUnmarshaler(elem) {
 			// Check for recursion
 			for i := range stack {
-				if stack[i].RType == elem {
+				if stack[i].Pending == elem {
 					// Recursion of type stack[i] detected.
 					// Link recursive frame to the recursion frame.
 					stack[i].Type = ExpectTypeStructRecur
@@ -273,10 +280,14 @@ func appendTypeToStack[S []byte | string](
 			}), nil
 		}
 
+		if isPending(stack, t) {
+			return nil, fmt.Errorf("unsupported recursive type: %v", t)
+		}
 		stack = append(stack, stackFrame[S]{
 			Type:                   ExpectTypeMap,
 			Typ:                    getTyp(t),
 			RType:                  t,
+			Pending:                t,
 			Size:                   t.Size(),
 			MapValueType:           getTyp(t.Elem()),
 			MapCanUseAssignFaststr: canUseAssignFaststr(t),
@@ -300,6 +311,7 @@ func appendTypeToStack[S []byte | string](
 			// Link map value to the map frame.
 			stack[newAtIndex].ParentFrameIndex = parentIndex
 		}
+		stack[parentIndex].Pending = nil
 
 	case reflect.Struct:
 		parentIndex := uint32(len(stack))
@@ -316,6 +328,7 @@ func appendTypeToStack[S []byte | string](
 			Type:             ExpectTypeStruct,
 			Typ:              getTyp(t),
 			RType:            t,
+			Pending:          t,
 			Size:             t.Size(),
 			Fields:           make([]fieldStackFrame, 0, numFields),
 			ParentFrameIndex: noParentFrame,
@@ -401,6 +414,7 @@ func appendTypeToStack[S []byte | string](
 				}
 			}
 		}
+		stack[parentIndex].Pending = nil
 
 	case reflect.Bool:
 		stack = append(stack, stackFrame[S]{
@@ -517,7 +531,7 @@ func appendTypeToStack[S []byte | string](
 			!implementsUnmarshaler(elem) {
 			// Check for recursion
 			for i := range stack {
-				if stack[i].RType == elem {
+				if stack[i].Pending == elem {
 					// Recursion of type stack[i] detected.
 					// Link recursive frame to the recursion frame.
 					stack[i].Type = ExpectTypeStructRecur
@@ -533,9 +547,13 @@ func appendTypeToStack[S []byte | string](
 			}
 		}
 
+		if isPending(stack, t) {
+			return nil, fmt.Errorf("unsupported recursive type: %v", t)
+		}
 		stack = append(stack, stackFrame[S]{
 			Type:             ExpectTypePtr,
 			Typ:              getTyp(t),
+			Pending:          t,
 			Size:             t.Size(),
 			ParentFrameIndex: noParentFrame,
 		})
@@ -546,6 +564,7 @@ func appendTypeToStack[S []byte | string](
 			return nil, err
 		}
 		stack[newAtIndex].ParentFrameIndex = parentIndex
+		stack[parentIndex].Pending = nil
 
 	default:
 		return nil, fmt.Errorf("unsupported type: %v", t)
@@ -553,6 +572,16 @@ func appendTypeToStack[S []byte | string](
 	return stack, nil
 }
 
+// isPending returns true if any of the parents of the frame to be appended is of type t.
+func isPending[S []byte | string](stack []stackFrame[S], t reflect.Type) bool {
+	for i := range stack {
+		if stack[i].Pending == t {
+			return true
+		}
+	}
+	return false
+}
+
 // appendMapKeyToStack appends the frame of a map key type, which is always a single
 // frame, and returns an error if the type isn't supported as a map key.
 func appendMapKeyToStack[S []byte | string](
diff --git a/jscandec.go b/jscandec.go
index a840582..5bb0231 100644
--- a/jscandec.go
+++ b/jscandec.go
@@ -391,14 +391,25 @@ type fieldStackFrame struct {
 	Name string
 }
 
+// recursionStackFrame stores the state of a frame to be reset to at the end of
+// the recursion. Each recursion pushes one for every frame on the path from the
+// recursive container frame up to the recursive ExpectTypeStructRecur frame.
 type recursionStackFrame struct {
-	// Dest stores the destination pointer for the recursive frame to be reset to.
+	// Dest stores the destination pointer for the frame to be reset to.
 	Dest unsafe.Pointer
 
-	// Offset stores the offset for the recursive frame to be reset to.
+	// Offset stores the offset for the frame to be reset to.
 	Offset uintptr
 
+	// Len stores the array length for the frame to be reset to.
+	Len int
+
+	// Frame stores the index of the frame.
+	Frame uint32
+
 	// ContainerFrame stores the index of the recursive container frame.
+	// noParentFrame separates the recursions of a recursive struct from those that
+	// began before an outer recursive struct was entered again.
 	ContainerFrame uint32
 }
 
@@ -410,6 +421,10 @@ type stackFrame[S []byte | string] struct {
 	// RType is relevant to JSONUnmarshaler frames only.
 	RType reflect.Type
 
+	// Pending is set at decoder init time only and is the type of the frame for as
+	// long as its child frames are being appended, otherwise it's nil.
+	Pending reflect.Type
+
 	// Typ is relevant to maps and slices only
 	Typ *typ
 
@@ -740,6 +755,10 @@ func (d *Decoder[S, T]) Decode(
 	defer func() {
 		for i := range d.stackExp {
 			d.stackExp[i].Dest = nil
+			if len(d.stackExp[i].RecursionStack) > 0 {
+				// The recursion was interrupted by an error.
+				d.resetRecursion(uint32(i))
+			}
 		}
 	}()
 
@@ -1403,11 +1422,7 @@ func (d *Decoder[S, T]) Decode(
 						}
 						*(*sliceHeader)(p) = emptySlice
 						ti += 2
-						if len(d.stackExp[recursiveFrame].RecursionStack) < 1 {
-							goto ON_VAL_END
-						}
-						si = uint32(recursiveFrame)
-						continue
+						goto ON_VAL_END
 					}
 
 					var dp unsafe.Pointer
@@ -1434,18 +1449,8 @@ func (d *Decoder[S, T]) Decode(
 					}
 					ti++
 
-					// Push recursion stack
-					d.stackExp[recursiveFrame].RecursionStack = append(
-						d.stackExp[recursiveFrame].RecursionStack, recursionStackFrame{
-							Dest:           d.stackExp[recursiveFrame].Dest,
-							Offset:         d.stackExp[recursiveFrame].Offset,
-							ContainerFrame: si,
-						},
-					)
-
-					si = uint32(recursiveFrame)
+					si = d.pushRecursion(si)
 					d.stackExp[si].Dest = dp
-					d.stackExp[si].Offset = 0
 
 				case ExpectTypeSliceEmptyStruct:
 					for i := ti + 1; i < tokens[ti].End; i++ {
@@ -2067,17 +2072,7 @@ func (d *Decoder[S, T]) Decode(
 						uintptr(d.stackExp[si].Dest) + d.stackExp[si].Offset,
 					)
 
-					siPointer := si
-					si = uint32(d.stackExp[si].RecurFrame)
-					// Push recursion stack
-					d.stackExp[si].RecursionStack = append(
-						d.stackExp[si].RecursionStack, recursionStackFrame{
-							Dest:           d.stackExp[si].Dest,
-							Offset:         d.stackExp[si].Offset,
-							ContainerFrame: siPointer,
-						},
-					)
-
+					si = d.pushRecursion(si)
 					var dp unsafe.Pointer
 					if *(*unsafe.Pointer)(p) != nil {
 						dp = *(*unsafe.Pointer)(p)
@@ -2089,7 +2084,7 @@ func (d *Decoder[S, T]) Decode(
 
 					if tokens[ti].Elements == 0 {
 						ti += 2
-						goto ON_RECUR_OBJ_END
+						goto ON_VAL_END
 					}
 					// Point all fields to the struct, the offsets are already
 					// set statically during decoder init time.
@@ -2098,32 +2093,7 @@ func (d *Decoder[S, T]) Decode(
 					}
 					ti++
 
-				case ExpectTypeMapRecur:
-					// Push recursion stack
-					recursiveFrame := d.stackExp[si].RecurFrame
-					d.stackExp[recursiveFrame].RecursionStack = append(
-						d.stackExp[recursiveFrame].RecursionStack, recursionStackFrame{
-							Dest:           d.stackExp[recursiveFrame].Dest,
-							Offset:         d.stackExp[recursiveFrame].Offset,
-							ContainerFrame: si,
-						},
-					)
-					p := unsafe.Pointer(
-						uintptr(d.stackExp[si].Dest) + d.stackExp[si].Offset,
-					)
-					if *(*unsafe.Pointer)(p) == nil {
-						// Map not yet initialized, initialize map.
-						*(*unsafe.Pointer)(p) = makemap(
-							d.stackExp[si].Typ, tokens[ti].Elements,
-						)
-					}
-					if tokens[ti].Elements == 0 {
-						ti += 2
-						goto ON_VAL_END
-					}
-					ti++
-
-				case ExpectTypeMap:
+				case ExpectTypeMap, ExpectTypeMapRecur:
 					p := unsafe.Pointer(
 						uintptr(d.stackExp[si].Dest) + d.stackExp[si].Offset,
 					)
@@ -2171,7 +2141,7 @@ func (d *Decoder[S, T]) Decode(
 					ti++
 					goto ON_VAL_END
 
-				case ExpectTypeStruct:
+				case ExpectTypeStruct, ExpectTypeStructRecur:
 					p := unsafe.Pointer(
 						uintptr(d.stackExp[si].Dest) + d.stackExp[si].Offset,
 					)
@@ -2187,21 +2157,6 @@ func (d *Decoder[S, T]) Decode(
 					}
 					ti++
 
-				case ExpectTypeStructRecur:
-					p := unsafe.Pointer(
-						uintptr(d.stackExp[si].Dest) + d.stackExp[si].Offset,
-					)
-					if tokens[ti].Elements == 0 {
-						ti += 2
-						goto ON_RECUR_OBJ_END
-					}
-					// Point all fields to the struct, the offsets are already
-					// set statically during decoder init time.
-					for i := range d.stackExp[si].Fields {
-						d.stackExp[d.stackExp[si].Fields[i].FrameIndex].Dest = p
-					}
-					ti++
-
 				case ExpectTypePtr:
 					goto ON_PTR
 
@@ -2450,8 +2405,7 @@ func (d *Decoder[S, T]) Decode(
 					}
 
 					if d.stackExp[si].Type == ExpectTypeMapRecur {
-						recursiveFrame := d.stackExp[si].RecurFrame
-						si = uint32(recursiveFrame)
+						si = d.pushRecursion(si)
 					} else {
 						// For non-recursive maps the value frame is guaranteed to
 						// be at an offset of 2 relative to the map frame index.
@@ -2471,60 +2425,14 @@ func (d *Decoder[S, T]) Decode(
 
 			case jscan.TokenTypeObjectEnd:
 				ti++
-				switch d.stackExp[si].Type {
-				case ExpectTypeStruct:
-					goto ON_VAL_END
-				case ExpectTypeMapRecur:
-					recursiveFrame := d.stackExp[si].RecurFrame
-					recurStack := d.stackExp[recursiveFrame].RecursionStack
-					if len(recurStack) < 1 {
-						// In map of the root recursive struct
-						si = uint32(d.stackExp[si].RecurFrame)
-						goto ON_VAL_END
-					}
-
-					// Reset to parent context
-					topIndex := len(recurStack) - 1
-					resetTo := d.stackExp[recursiveFrame].RecursionStack[topIndex]
-					d.stackExp[recursiveFrame].Dest = resetTo.Dest
-					d.stackExp[recursiveFrame].Offset = resetTo.Offset
-					fields := d.stackExp[recursiveFrame].Fields
-					for i := range fields {
-						d.stackExp[fields[i].FrameIndex].Dest = resetTo.Dest
-					}
-
-					// Pop recursion stack
-					recurStack[topIndex].Dest = nil
-					d.stackExp[recursiveFrame].RecursionStack = recurStack[:topIndex]
-					si = d.stackExp[si].ParentFrameIndex
-					continue
-				}
-				goto ON_RECUR_OBJ_END
+				goto ON_VAL_END
 
 			case jscan.TokenTypeArrayEnd:
 				ti++
-				if d.stackExp[si].Type == ExpectTypeStructRecur {
-					recurStack := d.stackExp[si].RecursionStack
-					if len(recurStack) < 1 {
-						// In slice of the root recursive struct
-						goto ON_VAL_END
-					}
-
-					// Reset to parent context
-					topIndex := len(recurStack) - 1
-					resetTo := d.stackExp[si].RecursionStack[topIndex]
-					d.stackExp[si].Dest = resetTo.Dest
-					d.stackExp[si].Offset = resetTo.Offset
-					fields := d.stackExp[si].Fields
-					for i := range fields {
-						d.stackExp[fields[i].FrameIndex].Dest = resetTo.Dest
-					}
-
-					// Pop recursion stack
-					recurStack[topIndex].Dest = nil
-					d.stackExp[si].RecursionStack = recurStack[:topIndex]
-					si = d.stackExp[resetTo.ContainerFrame].ParentFrameIndex
-					continue
+				if d.recursiveContainer(si) != noParentFrame {
+					// End of a recursive slice.
+					si = d.popRecursion(si)
+					goto ON_VAL_END
 				}
 				siCon := d.stackExp[si].ParentFrameIndex
 				if d.stackExp[siCon].Type == ExpectTypeArray {
@@ -2542,46 +2450,21 @@ func (d *Decoder[S, T]) Decode(
 			}
 			continue
 
-		ON_RECUR_OBJ_END:
-			if l := len(d.stackExp[si].RecursionStack); l > 0 {
-				top := d.stackExp[si].RecursionStack[l-1]
-				switch d.stackExp[top.ContainerFrame].Type {
+		ON_VAL_END:
+			if container := d.recursiveContainer(si); container != noParentFrame {
+				// End of a recursive struct inside a recursive container.
+				switch d.stackExp[container].Type {
 				case ExpectTypeSliceRecur:
 					d.stackExp[si].Offset += d.stackExp[si].Size
-				case ExpectTypePtrRecur:
-					recurStack := d.stackExp[si].RecursionStack
-					if len(recurStack) < 1 {
-						// In map of the root recursive struct
-						goto ON_VAL_END
-					}
-
-					// Reset to parent context
-					topIndex := len(recurStack) - 1
-					d.stackExp[si].Dest = top.Dest
-					d.stackExp[si].Offset = top.Offset
-					fields := d.stackExp[si].Fields
-					for i := range fields {
-						d.stackExp[fields[i].FrameIndex].Dest = top.Dest
-					}
-
-					// Pop recursion stack
-					recurStack[topIndex].Dest = nil
-					d.stackExp[si].RecursionStack = recurStack[:topIndex]
-					si = d.stackExp[top.ContainerFrame].ParentFrameIndex
-					continue
-
 				case ExpectTypeMapRecur:
-					si = top.ContainerFrame
-					// Set the top stack destination so the next key gets assigned to it.
-					// Otherwise we'll be in the destination of the previously assigned
-					// key, which will point to an empty map.
-					d.stackExp[si].Dest = top.Dest
+					si = d.popRecursion(si)
+				default:
+					// The end of the value is also the end of the pointer.
+					si = d.popRecursion(si)
+					goto ON_VAL_END
 				}
 				continue
 			}
-			// Here we expect to fallthrough directly to ON_VAL_END!
-
-		ON_VAL_END:
 			if siCon := d.stackExp[si].ParentFrameIndex; siCon != noParentFrame {
 				switch d.stackExp[siCon].Type {
 				case ExpectTypePtr:
@@ -2676,6 +2559,84 @@ func (d *Decoder[S, T]) Decode(
 	return -1, nil
 }
 
+// recursiveContainer returns the index of the recursive container frame that frame si
+// is currently in, or noParentFrame if it's in its regular parent frame.
+func (d *Decoder[S, T]) recursiveContainer(si uint32) (container uint32) {
+	if l := len(d.stackExp[si].RecursionStack); l > 0 {
+		return d.stackExp[si].RecursionStack[l-1].ContainerFrame
+	}
+	return noParentFrame
+}
+
+// pushRecursion stores the state of all frames on the path from the recursive container
+// frame to its recursive struct frame on the recursion stack of the struct frame and
+// returns the index of the latter.
+func (d *Decoder[S, T]) pushRecursion(container uint32) (recursive uint32) {
+	recursive = uint32(d.stackExp[container].RecurFrame)
+	stack := d.stackExp[recursive].RecursionStack
+	for i := container; ; i = d.stackExp[i].ParentFrameIndex {
+		f := &d.stackExp[i]
+		stack = append(stack, recursionStackFrame{
+			Dest:           f.Dest,
+			Offset:         f.Offset,
+			Len:            f.Len,
+			Frame:          i,
+			ContainerFrame: container,
+		})
+		if i == recursive {
+			f.Offset = 0
+			f.RecursionStack = stack
+			return recursive
+		}
+		if len(f.RecursionStack) > 0 {
+			f.RecursionStack = append(f.RecursionStack, recursionStackFrame{
+				Frame:          noParentFrame,
+				ContainerFrame: noParentFrame,
+			})
+		}
+	}
+}
+
+// popRecursion reverts the latest pushRecursion for the given recursive struct frame
+// and returns the index of the recursive container frame.
+func (d *Decoder[S, T]) popRecursion(recursive uint32) (container uint32) {
+	stack := d.stackExp[recursive].RecursionStack
+	container = stack[len(stack)-1].ContainerFrame
+	for {
+		top := &stack[len(stack)-1]
+		i := top.Frame
+		f := &d.stackExp[i]
+		f.Dest, f.Offset, f.Len = top.Dest, top.Offset, top.Len
+		top.Dest = nil
+		stack = stack[:len(stack)-1]
+		if i != recursive && len(f.RecursionStack) > 0 {
+			f.RecursionStack = f.RecursionStack[:len(f.RecursionStack)-1]
+		}
+		// Point all fields back to the struct, Fields is empty for any other type.
+		p := unsafe.Pointer(uintptr(f.Dest) + f.Offset)
+		for fi := range f.Fields {
+			d.stackExp[f.Fields[fi].FrameIndex].Dest = p
+		}
+		if i == container {
+			d.stackExp[recursive].RecursionStack = stack
+			return container
+		}
+	}
+}
+
+// resetRecursion clears the recursion stack of the given recursive struct frame and
+// resets its offset to what it was before the first recursion.
+func (d *Decoder[S, T]) resetRecursion(recursive uint32) {
+	stack := d.stackExp[recursive].RecursionStack
+	for i := len(stack) - 1; i >= 0; i-- {
+		if stack[i].Frame == recursive {
+			d.stackExp[recursive].Offset = stack[i].Offset
+		}
+		stack[i].Dest = nil
+	}
+	d.stackExp[recursive].RecursionStack = stack[:0]
+}
+
 // readQuotedNumber unescapes the contents of a JSON string and makes sure that the
 // entire string is a valid JSON number, otherwise returns jsonnum.ReturnCodeErr.
 func readQuotedNumber[S []byte | string](str S) (S, jsonnum.ReturnCode) {
-- 
2.43.0


From 8cb8b4b2d3ca443c4b03558dfdfa6262a31caf21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:57 +0000
Subject: [PATCH 22/32] fix: unescape the contents of quoted strings and bools

---
 jscandec.go | 30 ++++++++++--------------------
 1 file changed, 10 insertions(+), 20 deletions(-)

diff --git a/jscandec.go b/jscandec.go
index 5bb0231..ff550b7 100644
--- a/jscandec.go
+++ b/jscandec.go
@@ -1,7 +1,6 @@
 package jscandec
 
 import (
-	"bytes"
 	"encoding"
 	"encoding/json"
 	"errors"
@@ -1060,7 +1059,9 @@ func (d *Decoder[S, T]) Decode(
 						s[tokens[ti].Index+1 : tokens[ti].End-1],
 					)
 				case ExpectTypeBoolString:
-					switch string(s[tokens[ti].Index+1 : tokens[ti].End-1]) {
+					switch unescape.Valid[S, string](
+						s[tokens[ti].Index+1 : tokens[ti].End-1],
+					) {
 					case "true":
 						*(*bool)(p) = true
 					case "false":
@@ -1070,27 +1071,16 @@ func (d *Decoder[S, T]) Decode(
 						return true
 					}
 				case ExpectTypeStrString:
-					tv := s[tokens[ti].Index+1 : tokens[ti].End-1]
-					if len(tv) < len(`\"\"`) ||
-						string(tv[0:2]) != `\"` ||
-						string(tv[len(tv)-2:]) != `\"` {
-						// Too short or not encloused by \"
-						errIndex, err = tokens[ti].Index, ErrUnexpectedValue
-						return true
-					}
-					val := tv[2 : len(tv)-2]
-					var indexReverseSolidus int
-					switch val := any(val).(type) {
-					case string:
-						indexReverseSolidus = strings.IndexByte(val, '\\')
-					case []byte:
-						indexReverseSolidus = bytes.IndexByte(val, '\\')
-					}
-					if indexReverseSolidus != -1 {
+					tv := unescape.Valid[S, string](
+						s[tokens[ti].Index+1 : tokens[ti].End-1],
+					)
+					if len(tv) < len(`""`) || tv[0] != '"' || tv[len(tv)-1] != '"' ||
+						!json.Valid([]byte(tv)) {
+						// Not a JSON string
 						errIndex, err = tokens[ti].Index, ErrUnexpectedValue
 						return true
 					}
-					*(*string)(p) = string(val)
+					*(*string)(p) = unescape.Valid[string, string](tv[1 : len(tv)-1])
 
 				case ExpectTypeNumber:
 					tv, rc := readQuotedNumber(s[tokens[ti].Index+1 : tokens[ti].End-1])
-- 
2.43.0


From 4a2e2a2e28dc162689ec38e12167fd8ce6335db7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:15 +0000
Subject: [PATCH 23/32] fix: set slices of empty structs to nil on null

---
 jscandec.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/jscandec.go b/jscandec.go
index ff550b7..99dc2bd 100644
--- a/jscandec.go
+++ b/jscandec.go
@@ -1266,6 +1266,8 @@ func (d *Decoder[S, T]) Decode(
 					// Skip
 				case ExpectTypePtr, ExpectTypePtrRecur:
 					*(*unsafe.Pointer)(p) = nil
+				case ExpectTypeSliceEmptyStruct:
+					*(*[]struct{})(p) = nil
 				case ExpectTypeSliceBool:
 					*(*[]bool)(p) = nil
 				case ExpectTypeSliceString:
-- 
2.43.0


From 049ba0898462129a7d39611303a02db3ad3bdc1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:15 +0000
Subject: [PATCH 24/32] fix: preserve the spare capacity of slices when growing
 like encoding/json

---
 jscandec.go | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/jscandec.go b/jscandec.go
index 99dc2bd..560be14 100644
--- a/jscandec.go
+++ b/jscandec.go
@@ -1371,13 +1371,13 @@ func (d *Decoder[S, T]) Decode(
 						sh := sliceHeader{Len: elems, Cap: elems}
 						if elementSize > 0 {
 							sh.Data = newarray(d.stackExp[si+1].Typ, elems)
-							if h.Len != 0 && d.stackExp[si+1].Type.isElemComposite() {
+							if h.Cap != 0 && d.stackExp[si+1].Type.isElemComposite() {
 								// Must copy existing data bzecause it's not guarenteed
 								// that the existing data will be fully overwritten.
 								typedslicecopy(
 									d.stackExp[si+1].Typ,
 									sh.Data, int(elems),
-									h.Data, int(h.Len),
+									h.Data, int(h.Cap),
 								)
 							}
 						} else {
@@ -1424,13 +1424,13 @@ func (d *Decoder[S, T]) Decode(
 							Len:  elems,
 							Cap:  elems,
 						}
-						if h.Len != 0 {
+						if h.Cap != 0 {
 							// Must copy existing data because it's not guarenteed
 							// that the existing data will be fully overwritten.
 							typedslicecopy(
 								d.stackExp[recursiveFrame].Typ,
 								sh.Data, int(elems),
-								h.Data, int(h.Len),
+								h.Data, int(h.Cap),
 							)
 						}
 						*(*sliceHeader)(p) = sh
@@ -2644,13 +2644,14 @@ func readQuotedNumber[S []byte | string](str S) (S, jsonnum.ReturnCode) {
 }
 
 // resizeSlice returns sl resized to length n preserving its elements
-// because null has no effect on them.
+// because null has no effect on them. Same as in encoding/json, this includes elements
+// in between the length and the capacity of sl.
 func resizeSlice[E any](sl []E, n int) []E {
 	if cap(sl) >= n {
 		return sl[:n]
 	}
 	c := make([]E, n)
-	copy(c, sl)
+	copy(c, sl[:cap(sl)])
 	return c
 }
 
-- 
2.43.0


From 8cfded478114c48efdbe077281c238f32952bf06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:40 +0000
Subject: [PATCH 25/32] fix: support multi-level pointers in recursive structs

---
 append_type_stack.go | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/append_type_stack.go b/append_type_stack.go
index 5b7e42b..17e4be8 100644
--- a/append_type_stack.go
+++ b/append_type_stack.go
@@ -211,7 +211,7 @@ func appendTypeToStack[S []byte | string](
 			}), nil
 		}
 
-		if isPending(stack, t) {
+		if isInfinite(stack, t) {
 			return nil, fmt.Errorf("unsupported recursive type: %v", t)
 		}
 		parentIndex := uint32(len(stack))
@@ -280,7 +280,7 @@ func appendTypeToStack[S []byte | string](
 			}), nil
 		}
 
-		if isPending(stack, t) {
+		if isInfinite(stack, t) {
 			return nil, fmt.Errorf("unsupported recursive type: %v", t)
 		}
 		stack = append(stack, stackFrame[S]{
@@ -547,7 +547,7 @@ func appendTypeToStack[S []byte | string](
 			}
 		}
 
-		if isPending(stack, t) {
+		if isInfinite(stack, t) {
 			return nil, fmt.Errorf("unsupported recursive type: %v", t)
 		}
 		stack = append(stack, stackFrame[S]{
@@ -572,14 +572,16 @@ func appendTypeToStack[S []byte | string](
 	return stack, nil
 }
 
-// isPending returns true if any of the parents of the frame to be appended is of type t.
-func isPending[S []byte | string](stack []stackFrame[S], t reflect.Type) bool {
+// isInfinite returns true if multiple parents of the frame to be appended are of type t,
+// in which case t contains itself without any recursive struct frame to link to.
+func isInfinite[S []byte | string](stack []stackFrame[S], t reflect.Type) bool {
+	n := 0
 	for i := range stack {
 		if stack[i].Pending == t {
-			return true
+			n++
 		}
 	}
-	return false
+	return n > 1
 }
 
 // appendMapKeyToStack appends the frame of a map key type, which is always a single
-- 
2.43.0


From c12aed1ac81737b59bfe584f57beac9be193dfb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:40 +0000
Subject: [PATCH 26/32] fix: copy slices of pointer-free elements while the GC
 write barrier is on

---
 jscandec.go | 25 +++++++++----------------
 1 file changed, 9 insertions(+), 16 deletions(-)

diff --git a/jscandec.go b/jscandec.go
index 560be14..1fed401 100644
--- a/jscandec.go
+++ b/jscandec.go
@@ -1372,13 +1372,10 @@ func (d *Decoder[S, T]) Decode(
 						if elementSize > 0 {
 							sh.Data = newarray(d.stackExp[si+1].Typ, elems)
 							if h.Cap != 0 && d.stackExp[si+1].Type.isElemComposite() {
-								// Must copy existing data bzecause it's not guarenteed
+								// Must copy existing data because it's not guarenteed
 								// that the existing data will be fully overwritten.
-								typedslicecopy(
-									d.stackExp[si+1].Typ,
-									sh.Data, int(elems),
-									h.Data, int(h.Cap),
-								)
+								h.Len = h.Cap
+								typedslicecopy(d.stackExp[si+1].Typ, sh, h)
 							}
 						} else {
 							sh.Data = emptyStructAddr
@@ -1427,11 +1424,8 @@ func (d *Decoder[S, T]) Decode(
 						if h.Cap != 0 {
 							// Must copy existing data because it's not guarenteed
 							// that the existing data will be fully overwritten.
-							typedslicecopy(
-								d.stackExp[recursiveFrame].Typ,
-								sh.Data, int(elems),
-								h.Data, int(h.Cap),
-							)
+							h.Len = h.Cap
+							typedslicecopy(d.stackExp[recursiveFrame].Typ, sh, h)
 						}
 						*(*sliceHeader)(p) = sh
 						dp = sh.Data
@@ -2775,11 +2769,10 @@ func newarray(typ *typ, n uintptr) unsafe.Pointer
 //go:linkname mallocgc runtime.mallocgc
 func mallocgc(size uintptr, typ *typ, needzero bool) unsafe.Pointer
 
-//go:linkname typedslicecopy runtime.typedslicecopy
-//go:nosplit
-func typedslicecopy(
-	elemTyp *typ, dstPtr unsafe.Pointer, dstLen int, srcPtr unsafe.Pointer, srcLen int,
-) int
+// typedslicecopy unlike runtime.typedslicecopy supports pointer-free element types.
+//
+//go:linkname typedslicecopy reflect.typedslicecopy
+func typedslicecopy(elemTyp *typ, dst, src sliceHeader) int
 
 //go:linkname typedmemclr runtime.typedmemclr
 //go:noescape
-- 
2.43.0


From 21c6c7e4c61480e35ff4ab0af425da9bbdc8cce0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:24 +0000
Subject: [PATCH 27/32] fix: respect DisallowUnknownFields for empty structs

---
 jscandec.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/jscandec.go b/jscandec.go
index 1fed401..8d92185 100644
--- a/jscandec.go
+++ b/jscandec.go
@@ -1443,6 +1443,10 @@ func (d *Decoder[S, T]) Decode(
 						switch tokens[i].Type {
 						case jscan.TokenTypeNull:
 						case jscan.TokenTypeObject:
+							if options.DisallowUnknownFields && tokens[i].Elements != 0 {
+								errIndex, err = tokens[i+1].Index, ErrUnknownField
+								return true
+							}
 							i = tokens[i].End
 						default:
 							errIndex, err = tokens[i].Index, ErrUnexpectedValue
@@ -2038,6 +2042,10 @@ func (d *Decoder[S, T]) Decode(
 			case jscan.TokenTypeObject:
 				switch d.stackExp[si].Type {
 				case ExpectTypeEmptyStruct:
+					if options.DisallowUnknownFields && tokens[ti].Elements != 0 {
+						errIndex, err = tokens[ti+1].Index, ErrUnknownField
+						return true
+					}
 					ti = tokens[ti].End + 1 // Skip object value
 					goto ON_VAL_END
 				case ExpectTypeAny:
-- 
2.43.0


From 593ea8a7420607253e1725b4bddb202be07abd58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:14 +0000
Subject: [PATCH 28/32] fix: leave the destination untouched when data follows
 the value

---
 jscandec.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/jscandec.go b/jscandec.go
index 8d92185..6e94ca5 100644
--- a/jscandec.go
+++ b/jscandec.go
@@ -769,6 +769,16 @@ func (d *Decoder[S, T]) Decode(
 	d.stackExp[0].Dest = unsafe.Pointer(t)
 
 	errTok := d.tokenizer.Tokenize(s, func(tokens []jscan.Token[S]) (exit bool) {
+		// The tokenizer checks what follows the value only after this function returns.
+		// Decode nothing if it's going to report an error.
+		for i := tokens[0].Index + len(jscan.RawTokenValue(s, tokens, 0)); i < len(s); i++ {
+			switch s[i] {
+			case ' ', '\t', '\r', '\n':
+			default:
+				return false
+			}
+		}
+
 		// ti stands for the token index and points at the current token
 		for ti := 0; ti < len(tokens); {
 			switch tokens[ti].Type {
-- 
2.43.0


From 2bb6ee8f9973255b445dcf1a111ec32a76dc7817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:50 +0000
Subject: [PATCH 29/32] fix: pass a non-nil receiver to unmarshalers in
 zero-size values behind pointers

---
 jscandec.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/jscandec.go b/jscandec.go
index 6e94ca5..d8757cd 100644
--- a/jscandec.go
+++ b/jscandec.go
@@ -2514,6 +2514,7 @@ func (d *Decoder[S, T]) Decode(
 				)
 				si++
 				if d.stackExp[si].Size == 0 {
+					d.stackExp[si].Dest = emptyStructAddr
 					*(*unsafe.Pointer)(p) = emptyStructAddr
 				} else if dp := *(*unsafe.Pointer)(p); dp != nil {
 					// Decode into the existing value.
-- 
2.43.0


From f4c2c8f7b2fd02760c78ac08bfa60de6a632034c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:36 +0000
Subject: [PATCH 30/32] fix: null resets slices and maps that implement
 encoding.TextUnmarshaler

---
 jscandec.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/jscandec.go b/jscandec.go
index d8757cd..864402a 100644
--- a/jscandec.go
+++ b/jscandec.go
@@ -1307,8 +1307,11 @@ func (d *Decoder[S, T]) Decode(
 				case ExpectTypeSliceUint64:
 					*(*[]uint64)(p) = nil
 				case ExpectTypeTextUnmarshaler:
-					if d.stackExp[si].RType.Kind() == reflect.Pointer {
+					switch d.stackExp[si].RType.Kind() {
+					case reflect.Pointer, reflect.Map:
 						*(*unsafe.Pointer)(p) = nil
+					case reflect.Slice:
+						*(*[]any)(p) = nil
 					}
 				case ExpectTypeJSONUnmarshaler:
 					if d.stackExp[si].RType.Kind() != reflect.Pointer {
-- 
2.43.0


From 8af117271191301322e35a3746044ece510fd6ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:24 +0000
Subject: [PATCH 31/32] fix: decode the fields of zero-size structs in slices

---
 append_type_stack.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/append_type_stack.go b/append_type_stack.go
index 17e4be8..1b786d3 100644
--- a/append_type_stack.go
+++ b/append_type_stack.go
@@ -84,7 +84,7 @@ func appendTypeToStack[S []byte | string](
 		}
 		switch elemKind {
 		case reflect.Struct:
-			if elem.Size() < 1 {
+			if elem.NumField() < 1 {
 				return append(stack, stackFrame[S]{
 					Type:             ExpectTypeSliceEmptyStruct,
 					Typ:              getTyp(t),
-- 
2.43.0


From b7bbba4bd06921c0b0a375ecbd8d2120f7935f05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:27 +0000
Subject: [PATCH 32/32] fix: decode deeply nested values of type any without
 exhausting the stack

---
 jscandec.go | 96 +++++++++++++++++++++++++++++++----------------------
 1 file changed, 57 insertions(+), 39 deletions(-)

diff --git a/jscandec.go b/jscandec.go
index 864402a..5120c26 100644
--- a/jscandec.go
+++ b/jscandec.go
@@ -2728,54 +2728,72 @@ func fieldFrameIndexByName[S []byte | string](fields []fieldStackFrame, name S)
 	return noParentFrame
 }
 
+// decodeAny returns the generic representation of the value at tokens[0] and the
+// tokens following it. It doesn't recurse, the input may be nested to any depth.
 func decodeAny[S []byte | string](
 	str S, tokens []jscan.Token[S],
 ) (any, []jscan.Token[S], error) {
-	switch tokens[0].Type {
-	case jscan.TokenTypeNull:
-		return nil, tokens[1:], nil
-	case jscan.TokenTypeNumber, jscan.TokenTypeInteger:
-		f64, err := tokens[0].Float64(str)
-		if err != nil {
-			return nil, nil, err
-		}
-		return f64, tokens[1:], nil
-	case jscan.TokenTypeTrue:
-		return true, tokens[1:], nil
-	case jscan.TokenTypeFalse:
-		return false, tokens[1:], nil
-	case jscan.TokenTypeString:
-		return unescape.Valid[S, string](
-			str[tokens[0].Index+1 : tokens[0].End-1],
-		), tokens[1:], nil
-	case jscan.TokenTypeArray:
-		l := make([]any, 0, tokens[0].Elements)
-		for tokens = tokens[1:]; tokens[0].Type != jscan.TokenTypeArrayEnd; {
-			var v any
-			var err error
-			if v, tokens, err = decodeAny(str, tokens); err != nil {
+	// parents are the unfinished arrays and objects the current value is inside of.
+	type parent struct {
+		array  []any
+		object map[string]any
+		key    string
+	}
+	var buf [16]parent
+	parents := buf[:0]
+
+	for {
+		var v any
+		switch tokens[0].Type {
+		case jscan.TokenTypeNull:
+		case jscan.TokenTypeNumber, jscan.TokenTypeInteger:
+			f64, err := tokens[0].Float64(str)
+			if err != nil {
 				return nil, nil, err
 			}
-			l = append(l, v)
+			v = f64
+		case jscan.TokenTypeTrue:
+			v = true
+		case jscan.TokenTypeFalse:
+			v = false
+		case jscan.TokenTypeString:
+			v = unescape.Valid[S, string](
+				str[tokens[0].Index+1 : tokens[0].End-1],
+			)
+		case jscan.TokenTypeArray:
+			l := make([]any, 0, tokens[0].Elements)
+			parents = append(parents, parent{array: l})
+			tokens = tokens[1:]
+			continue
+		case jscan.TokenTypeArrayEnd:
+			v = parents[len(parents)-1].array
+			parents = parents[:len(parents)-1]
+		case jscan.TokenTypeObject:
+			m := make(map[string]any, tokens[0].Elements)
+			parents = append(parents, parent{object: m})
+			tokens = tokens[1:]
+			continue
+		case jscan.TokenTypeKey:
+			key := str[tokens[0].Index+1 : tokens[0].End-1]
+			parents[len(parents)-1].key = unescape.Valid[S, string](key)
+			tokens = tokens[1:]
+			continue
+		case jscan.TokenTypeObjectEnd:
+			v = parents[len(parents)-1].object
+			parents = parents[:len(parents)-1]
+		default:
+			panic("unreachable")
 		}
-		return l, tokens[1:], nil
-	case jscan.TokenTypeObject:
-		if tokens[0].Elements == 0 {
-			return map[string]any{}, tokens[2:], nil
+		tokens = tokens[1:]
+		if len(parents) == 0 {
+			return v, tokens, nil
 		}
-		m := make(map[string]any, tokens[0].Elements)
-		for tokens = tokens[1:]; tokens[0].Type != jscan.TokenTypeObjectEnd; {
-			key := str[tokens[0].Index+1 : tokens[0].End-1]
-			var v any
-			var err error
-			if v, tokens, err = decodeAny(str, tokens[1:]); err != nil {
-				return nil, nil, err
-			}
-			m[unescape.Valid[S, string](key)] = v
+		if p := &parents[len(parents)-1]; p.object != nil {
+			p.object[p.key] = v
+		} else {
+			p.array = append(p.array, v)
 		}
-		return m, tokens[1:], nil
 	}
-	panic("unreachable")
 }
 
 // emptyStructAddr the address to an empty slice remains the same
-- 
2.43.0

