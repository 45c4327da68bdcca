From abaddc8734f085fe251e655c214d513e952637c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:20 +0000
Subject: [PATCH 01/43] fix: escape vertical tab (0x0B) when marshaling strings
 and keys

---
 option.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/option.go b/option.go
index 163bff1..92adb7e 100644
--- a/option.go
+++ b/option.go
@@ -580,6 +580,7 @@ func (o *Opt) parseEscapingFuncs() {
 	iterate(0x00, 0x07, escAsciiControlChar)
 	// 0x08 is \b, encoding/json marshal as \u0008, but according to JSON standard, it should be "\b"
 	iterate(0x0E, 0x1F, escAsciiControlChar)
+	o.asciiCharEscapingFunc['\v'] = escAsciiControlChar // there is no short form for vertical tab in JSON
 	o.asciiCharEscapingFunc[0x7F] = escAsciiControlChar // encoding/json does not escape DEL
 
 	// ASCII characters always to be escaped
-- 
2.43.0


From a1e93efe8a9a0287a0d499dc48aec9eb3beb9680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:22 +0000
Subject: [PATCH 02/43] fix: reject 20-digit integers above the uint64 maximum
 instead of wrapping them

---
 unmarshal.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/unmarshal.go b/unmarshal.go
index 249222a..47e9105 100644
--- a/unmarshal.go
+++ b/unmarshal.go
@@ -856,6 +856,10 @@ func (it iter) parsePositiveIntResult(p pool, start, end int, integer uint64) (*
 		if integer < uintMaxDigits {
 			return nil, it.numErrorf(start, "value too large")
 		}
+		// a 20-digit integer may exceed the maximum and wrap around to a large value
+		if unsafe.BtoS(it[start:end]) > uintMaxStr {
+			return nil, it.numErrorf(start, "value too large")
+		}
 	}
 
 	v := new(p, Number)
-- 
2.43.0


From c24da998e9f29e5b9f8b52550d28046df29b008f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:45 +0000
Subject: [PATCH 03/43] fix: reject numbers whose integer part is missing or
 has a leading zero

---
 unmarshal.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/unmarshal.go b/unmarshal.go
index 47e9105..0ca647a 100644
--- a/unmarshal.go
+++ b/unmarshal.go
@@ -763,6 +763,20 @@ func (it iter) parseNumber(
 		idx--
 	}
 
+	// integer part should be either a single zero or digits those not start with zero
+	first := offset
+	if negative {
+		first++
+	}
+	if idx > first && (it[first] < '0' || it[first] > '9') {
+		err = it.numErrorf(first, "integer part missing")
+		return
+	}
+	if idx-first > 1 && it[first] == '0' && it[first+1] >= '0' && it[first+1] <= '9' {
+		err = it.numErrorf(first, "integer part should not start with zero")
+		return
+	}
+
 	if floated {
 		if dotGot && !intAfterDotGot {
 			err = it.numErrorf(offset, "integer after dot missing")
-- 
2.43.0


From 22115b616495874273fc53e82ba2a73a66bf9c48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:47 +0000
Subject: [PATCH 04/43] fix: accept floats whose first 20 digits wrap around to
 zero

---
 unmarshal.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/unmarshal.go b/unmarshal.go
index 0ca647a..1e10667 100644
--- a/unmarshal.go
+++ b/unmarshal.go
@@ -703,6 +703,8 @@ func (it iter) parseNumber(
 				// OK
 			} else if dotGot {
 				intAfterDotGot = true
+			} else if idx-offset >= len(uintMaxStr) {
+				// OK, the calculated integer may wrap around to zero here
 			} else if negative {
 				if integer == 0 && idx != offset+1 {
 					err = it.numErrorf(idx, "unexpected zero")
-- 
2.43.0


From 5f8fc69e87757422aa195b6c060f7471621c1fbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:49 +0000
Subject: [PATCH 05/43] fix: reject strings with malformed UTF-8 sequences

---
 unmarshal.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/unmarshal.go b/unmarshal.go
index 1e10667..524edde 100644
--- a/unmarshal.go
+++ b/unmarshal.go
@@ -4,6 +4,7 @@ import (
 	"errors"
 	"fmt"
 	"strconv"
+	"unicode/utf8"
 
 	"github.com/Andrew-M-C/go.jsonvalue/internal/unsafe"
 )
@@ -391,6 +392,10 @@ func (it iter) parseStrFromBytesForwardWithQuote(offset int) (sectLenWithoutQuot
 			)
 			return
 		}
+		if _, n := utf8.DecodeRune(it[*i:]); n != le {
+			err = fmt.Errorf("%w: illegal UTF8 string at Position %d", ErrIllegalString, *i)
+			return
+		}
 		it.memcpy(sectEnd, *i, le)
 		sectEnd += le
 		*i += le
-- 
2.43.0


From 2aa76f6fc8fa520d3d90ad96484a78ca195a5196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:51 +0000
Subject: [PATCH 06/43] fix: reject a UTF-16 low surrogate escape that no high
 surrogate precedes

---
 unmarshal.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/unmarshal.go b/unmarshal.go
index 524edde..770f43b 100644
--- a/unmarshal.go
+++ b/unmarshal.go
@@ -497,6 +497,13 @@ func (it iter) handleEscapeUnicodeStartWithEnd(i *int, end int, sectEnd *int) (e
 		return nil
 	}
 
+	// a low surrogate should not come first
+	if r >= 0xDC00 {
+		return fmt.Errorf(
+			"%w, unexpected UTF-16 low surrogate 0x%04X at position %d", ErrIllegalString, r, *i,
+		)
+	}
+
 	// reference: [JSON 序列化中的转义和 Unicode 编码](https://cloud.tencent.com/developer/article/1625557/)
 	// should get another unicode-escaped character
 	if end-*i <= 11 {
-- 
2.43.0


From c26e1f7984341f0b8f6d409f7613573445a84f9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:52 +0000
Subject: [PATCH 07/43] fix: return a NotExist value instead of nil when
 unmarshaling empty input

---
 jsonvalue.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jsonvalue.go b/jsonvalue.go
index d9e64de..eb3faf7 100644
--- a/jsonvalue.go
+++ b/jsonvalue.go
@@ -238,7 +238,7 @@ func MustUnmarshal(b []byte) *V {
 func Unmarshal(b []byte) (ret *V, err error) {
 	le := len(b)
 	if le == 0 {
-		return nil, ErrNilParameter
+		return &V{}, ErrNilParameter
 	}
 
 	trueB := make([]byte, len(b))
-- 
2.43.0


From 1ebe0c0c0c9887e17756995f506a02a207df3822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:54 +0000
Subject: [PATCH 08/43] fix: keep comma separators after a null omitted by
 OptOmitNull

---
 marshal.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marshal.go b/marshal.go
index 405d9d4..edeea74 100644
--- a/marshal.go
+++ b/marshal.go
@@ -260,7 +260,7 @@ func writeObjectChildren(
 	parentInfo *ParentInfo, buf buffer.Buffer, isFirstOne bool, key string, child *V, opt *Opt,
 ) (written bool) {
 	if child.IsNull() && opt.OmitNull {
-		return false
+		return !isFirstOne // keep the state, so that the next child is separated correctly
 	}
 	if !isFirstOne {
 		_ = buf.WriteByte(',')
-- 
2.43.0


From 5c7c4dd40cebfdda31965b97dd2a8d0c784e98eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:56 +0000
Subject: [PATCH 09/43] fix: report unsupported floats nested in objects or
 arrays when marshaling

---
 marshal.go | 6 ++++++
 option.go  | 4 ++++
 2 files changed, 10 insertions(+)

diff --git a/marshal.go b/marshal.go
index edeea74..02f706a 100644
--- a/marshal.go
+++ b/marshal.go
@@ -44,6 +44,9 @@ func (v *V) Marshal(opts ...Option) (b []byte, err error) {
 	opt := combineOptions(opts)
 
 	err = marshalToBuffer(v, nil, buf, opt)
+	if err == nil {
+		err = opt.childErr
+	}
 	if err != nil {
 		return nil, err
 	}
@@ -80,6 +83,9 @@ func marshalToBuffer(v *V, parentInfo *ParentInfo, buf buffer.Buffer, opt *Opt)
 	case Array:
 		marshalArray(v, parentInfo, buf, opt)
 	}
+	if err != nil && opt.childErr == nil {
+		opt.childErr = err
+	}
 	return err
 }
 
diff --git a/option.go b/option.go
index 92adb7e..e0b35b3 100644
--- a/option.go
+++ b/option.go
@@ -122,6 +122,10 @@ type Opt struct {
 		indent  string
 		cnt     int
 	}
+
+	// childErr is the first error that occurs while marshaling, no matter how deep
+	// the value is.
+	childErr error
 }
 
 type FloatNaNHandleType uint8
-- 
2.43.0


From 96bdf214db907cc8d9de97d255794a949061a5bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:13 +0000
Subject: [PATCH 10/43] fix: never append or insert nil and NotExist values
 into an array

---
 import_export.go        |  3 +++
 insert_append_delete.go | 18 ++++++++++++++++++
 2 files changed, 21 insertions(+)

diff --git a/import_export.go b/import_export.go
index 724754e..f59dd87 100644
--- a/import_export.go
+++ b/import_export.go
@@ -342,6 +342,9 @@ func parseArrayValue(v reflect.Value, ex ext) (*V, error) {
 		if err != nil {
 			return nil, err
 		}
+		if child == nil {
+			child = NewNull() // elements of an array should never be omitted
+		}
 		res.MustAppend(child).InTheEnd()
 	}
 
diff --git a/insert_append_delete.go b/insert_append_delete.go
index 535a4a2..1c3b29d 100644
--- a/insert_append_delete.go
+++ b/insert_append_delete.go
@@ -181,6 +181,9 @@ func (ins *insert) Before(firstParam any, otherParams ...any) (*V, error) {
 	if ins.err != nil {
 		return &V{}, ins.err
 	}
+	if nil == ins.c || ins.c.valueType == NotExist {
+		return &V{}, ErrValueUninitialized
+	}
 	if ok, p1, p2 := isSliceAndExtractDividedParams(firstParam); ok {
 		if len(otherParams) > 0 {
 			return &V{}, ErrMultipleParamNotSupportedWithIfSliceOrArrayGiven
@@ -230,6 +233,9 @@ func (ins *insert) After(firstParam any, otherParams ...any) (*V, error) {
 	if ins.err != nil {
 		return &V{}, ins.err
 	}
+	if nil == ins.c || ins.c.valueType == NotExist {
+		return &V{}, ErrValueUninitialized
+	}
 	if ok, p1, p2 := isSliceAndExtractDividedParams(firstParam); ok {
 		if len(otherParams) > 0 {
 			return &V{}, ErrMultipleParamNotSupportedWithIfSliceOrArrayGiven
@@ -428,6 +434,12 @@ func (v *V) AppendArray() Appender {
 //
 // InTheBeginning 函数将 Append 函数指定的 JSON 值，添加到参数指定的数组的最前端
 func (apd *appender) InTheBeginning(params ...any) (*V, error) {
+	if apd.err != nil {
+		return &V{}, apd.err
+	}
+	if nil == apd.c || apd.c.valueType == NotExist {
+		return &V{}, ErrValueUninitialized
+	}
 	v := apd.v
 	c := apd.c
 	if nil == v || v.valueType == NotExist {
@@ -478,6 +490,12 @@ func (apd *appender) InTheBeginning(params ...any) (*V, error) {
 //
 // InTheEnd 函数将 Append 函数指定的 JSON 值，添加到参数指定的数组的最后面
 func (apd *appender) InTheEnd(params ...any) (*V, error) {
+	if apd.err != nil {
+		return &V{}, apd.err
+	}
+	if nil == apd.c || apd.c.valueType == NotExist {
+		return &V{}, ErrValueUninitialized
+	}
 	v := apd.v
 	c := apd.c
 	if v.valueType == NotExist {
-- 
2.43.0


From cf9fac5263d96590aeb4f0442b1d31c876e5899c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:37 +0000
Subject: [PATCH 11/43] fix: apply omitempty to a pointer or map itself instead
 of the values inside it in Import

---
 import_export.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/import_export.go b/import_export.go
index f59dd87..b74c33e 100644
--- a/import_export.go
+++ b/import_export.go
@@ -365,6 +365,7 @@ func parseMapValue(v reflect.Value, ex ext, keyFunc func(key reflect.Value) stri
 	}
 
 	res := NewObject()
+	ex.omitempty = false // omitempty takes effect on the map itself
 
 	for _, kk := range keys {
 		vv := v.MapIndex(kk)
@@ -404,6 +405,7 @@ func parsePtrValue(v reflect.Value, ex ext) (*V, error) {
 	if v.IsNil() {
 		return parseNullValue(v, ex)
 	}
+	ex.omitempty = false // omitempty takes effect on the pointer itself
 
 	v, fu, err := validateValAndReturnParser(v.Elem(), ex)
 	if err != nil {
-- 
2.43.0


From 32456b60f1d7247f89abae6694414a3b10824334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:01 +0000
Subject: [PATCH 12/43] fix: import nil pointers to marshalers as null like
 encoding/json does

---
 import_export.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/import_export.go b/import_export.go
index b74c33e..74991b2 100644
--- a/import_export.go
+++ b/import_export.go
@@ -192,7 +192,7 @@ func getPointerOfValue(v reflect.Value) reflect.Value {
 
 func parseJSONValueDeepCopier(v reflect.Value, ex ext) (*V, error) {
 	if v.IsNil() {
-		return nil, nil // empty
+		return parseNullValue(v, ex) // empty
 	}
 	j, _ := v.Interface().(deepCopier)
 	return j.deepCopy(), nil
@@ -200,11 +200,11 @@ func parseJSONValueDeepCopier(v reflect.Value, ex ext) (*V, error) {
 
 func parseJSONMarshaler(v reflect.Value, ex ext) (*V, error) {
 	if v.Kind() == reflect.Ptr && v.IsNil() {
-		return nil, nil // empty
+		return parseNullValue(v, ex) // empty
 	}
 	marshaler, _ := v.Interface().(json.Marshaler)
 	if marshaler == nil {
-		return nil, nil // empty
+		return parseNullValue(v, ex) // empty
 	}
 	b, err := marshaler.MarshalJSON()
 	if err != nil {
@@ -246,7 +246,7 @@ func parseJSONMarshaler(v reflect.Value, ex ext) (*V, error) {
 
 func parseTextMarshaler(v reflect.Value, ex ext) (*V, error) {
 	if v.Kind() == reflect.Ptr && v.IsNil() {
-		return nil, nil // empty
+		return parseNullValue(v, ex) // empty
 	}
 	marshaler, _ := v.Interface().(encoding.TextMarshaler)
 	if marshaler == nil {
-- 
2.43.0


From 57cb0eb11e1488f97041d3845a8d201e34002b9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:25 +0000
Subject: [PATCH 13/43] fix: apply json tag option string in Import to scalar
 fields only, strings included

---
 import_export.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/import_export.go b/import_export.go
index 74991b2..2f5fc7e 100644
--- a/import_export.go
+++ b/import_export.go
@@ -329,6 +329,7 @@ func parseFloat32Value(v reflect.Value, ex ext) (*V, error) {
 
 func parseArrayValue(v reflect.Value, ex ext) (*V, error) {
 	ex.omitempty = false
+	ex.toString = false // tag 'string' takes effect to scalar fields only
 	res := NewArray()
 	le := v.Len()
 
@@ -366,6 +367,7 @@ func parseMapValue(v reflect.Value, ex ext, keyFunc func(key reflect.Value) stri
 
 	res := NewObject()
 	ex.omitempty = false // omitempty takes effect on the map itself
+	ex.toString = false  // tag 'string' takes effect to scalar fields only
 
 	for _, kk := range keys {
 		vv := v.MapIndex(kk)
@@ -440,6 +442,10 @@ func parseStringValue(v reflect.Value, ex ext) (*V, error) {
 	if str == "" && ex.shouldOmitEmpty() {
 		return nil, nil
 	}
+	if ex.toString {
+		b, err := json.Marshal(str)
+		return NewString(string(b)), err
+	}
 
 	return NewString(str), nil
 }
-- 
2.43.0


From fa549ecb6ad599534060074e1c363ca813087e81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:26 +0000
Subject: [PATCH 14/43] fix: never apply json tag options to the value inside a
 non-nil interface in Import

---
 import_export.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/import_export.go b/import_export.go
index 2f5fc7e..e6536e2 100644
--- a/import_export.go
+++ b/import_export.go
@@ -104,7 +104,15 @@ func validateValAndReturnParser(v reflect.Value, ex ext) (out reflect.Value, fu
 		fu = parseArrayValue
 
 	case reflect.Interface:
-		return validateValAndReturnParser(v.Elem(), ex)
+		out, fu, err = validateValAndReturnParser(v.Elem(), ex)
+		if inner := fu; inner != nil && !v.IsNil() {
+			// tag options take effect on the interface itself instead of the value inside it
+			fu = func(v reflect.Value, ex ext) (*V, error) {
+				ex.omitempty, ex.toString = false, false
+				return inner(v, ex)
+			}
+		}
+		return out, fu, err
 
 	case reflect.Map:
 		switch v.Type().Key().Kind() {
-- 
2.43.0


From e36b24ff46f587b9f917589b043fbd977b666d91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:28 +0000
Subject: [PATCH 15/43] fix: compare NaN and Inf numbers by their float values

---
 compare.go | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/compare.go b/compare.go
index 9f7f8b2..0edbc91 100644
--- a/compare.go
+++ b/compare.go
@@ -2,6 +2,7 @@ package jsonvalue
 
 import (
 	"bytes"
+	"math"
 
 	"github.com/shopspring/decimal"
 )
@@ -48,15 +49,28 @@ func greaterThan(left, right *V) (result, ok bool) {
 	if left.valueType != Number || right.valueType != Number {
 		return false, false
 	}
+	if isNaNOrInf(left) || isNaNOrInf(right) {
+		l, r := left.num.f64, right.num.f64
+		return l > r, !math.IsNaN(l) && !math.IsNaN(r)
+	}
 	a1, _ := decimal.NewFromString(string(left.srcByte))
 	a2, _ := decimal.NewFromString(string(right.srcByte))
 	return a1.GreaterThan(a2), true
 }
 
+// isNaNOrInf tells whether a number has no decimal representation
+func isNaNOrInf(v *V) bool {
+	return len(v.srcByte) == 0
+}
+
 func greaterOrEqualThan(left, right *V) (result, ok bool) {
 	if left.valueType != Number || right.valueType != Number {
 		return false, false
 	}
+	if isNaNOrInf(left) || isNaNOrInf(right) {
+		l, r := left.num.f64, right.num.f64
+		return l >= r, !math.IsNaN(l) && !math.IsNaN(r)
+	}
 	if bytes.Equal(left.srcByte, right.srcByte) {
 		return true, true
 	}
@@ -95,6 +109,10 @@ func (v *V) Equal(another *V) bool {
 }
 
 func numberEqual(left, right *V) bool {
+	if isNaNOrInf(left) || isNaNOrInf(right) {
+		l, r := left.num.f64, right.num.f64
+		return l == r || (math.IsNaN(l) && math.IsNaN(r))
+	}
 	if bytes.Equal(left.srcByte, right.srcByte) {
 		return true
 	}
-- 
2.43.0


From 70d936d1c7787d810b2aa8d9ad4515e6fca97511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:30 +0000
Subject: [PATCH 16/43] fix: do not panic when reading a number from a blank
 string

---
 unmarshal.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/unmarshal.go b/unmarshal.go
index 770f43b..c4ed828 100644
--- a/unmarshal.go
+++ b/unmarshal.go
@@ -354,6 +354,9 @@ func unmarshalObjectWithIterUnknownEnd(p pool, it iter, offset, right int) (_ *V
 // - [ECMA-404 The JSON Data Interchange Standard](https://www.json.org/json-en.html)
 func parseNumber(v *V, p pool) (err error) {
 	it := iter(v.srcByte)
+	if len(it) == 0 {
+		return it.numErrorf(0, "zero string")
+	}
 
 	parsed, end, reachEnd, err := it.parseNumber(p, 0)
 	if err != nil {
-- 
2.43.0


From c52fb52e8d704365dbed14aa17206d0db758b75d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:31 +0000
Subject: [PATCH 17/43] fix: do not panic in KeyPath.String() with string keys

---
 sort.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sort.go b/sort.go
index 0ebfc8e..c9c63ca 100644
--- a/sort.go
+++ b/sort.go
@@ -142,7 +142,7 @@ func (p KeyPath) String() (s string) {
 			buff.WriteString(s)
 		} else {
 			buff.WriteRune('"')
-			escapeStringToBuff(k.String(), &buff, getDefaultOptions())
+			escapeStringToBuff(k.String(), &buff, combineOptions(nil))
 			buff.WriteRune('"')
 		}
 	}
-- 
2.43.0


From ddf710111cbc2993677b5669155a38fda0990044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:33 +0000
Subject: [PATCH 18/43] fix: do not treat huge unsigned array indexes as
 negative ones

---
 conv.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/conv.go b/conv.go
index 0c9f90c..f7f6c91 100644
--- a/conv.go
+++ b/conv.go
@@ -2,6 +2,7 @@ package jsonvalue
 
 import (
 	"fmt"
+	"math"
 	"reflect"
 
 	"github.com/Andrew-M-C/go.jsonvalue/internal/buffer"
@@ -142,6 +143,9 @@ func anyToInt(v any) (u int, err error) {
 	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
 		return int(value.Int()), nil
 	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
+		if u := value.Uint(); u > math.MaxInt64 {
+			return 0, fmt.Errorf("%w: %d", ErrOutOfRange, u) // should not turn into a negative index
+		}
 		return int(value.Uint()), nil
 	default:
 		return 0, fmt.Errorf("%v is not a number", reflect.TypeOf(v))
-- 
2.43.0


From b615febda6e8e5e7c533a313c2eddb854a5b11db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:34 +0000
Subject: [PATCH 19/43] fix: return ErrOutOfRange instead of appending when a
 middle index of At() is out of range

---
 set.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/set.go b/set.go
index 3e4ba4a..024b1a6 100644
--- a/set.go
+++ b/set.go
@@ -282,6 +282,9 @@ func (s *setter) atArray(firstParam any, otherParams []any) (*V, error) {
 		return &V{}, err
 	}
 	child, ok := childAtIndex(v, pos)
+	if !ok && pos != len(v.children.arr) {
+		return &V{}, ErrOutOfRange // only appending to the end is allowed
+	}
 	isNewChild := false
 	if !ok {
 		isNewChild = true
-- 
2.43.0


From abc8c05427c08eb5559e38a68ba075d9770a7923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:53 +0000
Subject: [PATCH 20/43] fix: make SetDefaultMarshalOptions goroutine-safe as
 documented

---
 jsonvalue_internal.go | 4 ++--
 option.go             | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/jsonvalue_internal.go b/jsonvalue_internal.go
index f797560..4215ed1 100644
--- a/jsonvalue_internal.go
+++ b/jsonvalue_internal.go
@@ -11,7 +11,7 @@ import (
 var internal = struct {
 	b64 *base64.Encoding
 
-	defaultMarshalOption *Opt
+	defaultMarshalOption atomic.Value // stores *Opt
 
 	predict struct {
 		bytesPerValue uint64
@@ -26,7 +26,7 @@ var internal = struct {
 
 func init() {
 	internal.b64 = base64.StdEncoding
-	internal.defaultMarshalOption = emptyOptions()
+	internal.defaultMarshalOption.Store(emptyOptions())
 	internalAddPredictSizePerValue(16, 1)
 
 	internal.types.JSONMarshaler = reflect.TypeOf((*json.Marshaler)(nil)).Elem()
diff --git a/option.go b/option.go
index e0b35b3..8c43d9a 100644
--- a/option.go
+++ b/option.go
@@ -214,14 +214,14 @@ func (o Opt) mergeTo(tgt *Opt) {
 func SetDefaultMarshalOptions(opts ...Option) {
 	opt := emptyOptions()
 	opt.combineOptionsFrom(opts)
-	internal.defaultMarshalOption = opt
+	internal.defaultMarshalOption.Store(opt)
 }
 
 // ResetDefaultMarshalOptions reset default marshaling options to system default.
 //
 // ResetDefaultMarshalOptions 重设序列化时的默认选项为系统最原始的版本。
 func ResetDefaultMarshalOptions() {
-	internal.defaultMarshalOption = emptyOptions()
+	internal.defaultMarshalOption.Store(emptyOptions())
 }
 
 func emptyOptions() *Opt {
@@ -229,7 +229,7 @@ func emptyOptions() *Opt {
 }
 
 func getDefaultOptions() *Opt {
-	res := *internal.defaultMarshalOption
+	res := *internal.defaultMarshalOption.Load().(*Opt)
 	return &res
 }
 
-- 
2.43.0


From 0022a3232384bf84cffa6cf06848f3bf95152272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:55 +0000
Subject: [PATCH 21/43] fix: report values created from non-integer floats as
 IsFloat rather than IsInteger

---
 new.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/new.go b/new.go
index e2cb548..2cad136 100644
--- a/new.go
+++ b/new.go
@@ -6,6 +6,7 @@ import (
 	"math"
 	"reflect"
 	"strconv"
+	"strings"
 )
 
 // New generate a new jsonvalue type via given type. If given type is not supported,
@@ -258,6 +259,7 @@ func newFloat64f(p pool, f float64, format byte, prec, bitSize int) *V {
 	if isValidFloat(f) {
 		s := strconv.FormatFloat(f, format, prec, bitSize)
 		v.srcByte = []byte(s)
+		v.num.floated = strings.ContainsAny(s, ".eE")
 	}
 
 	return v
-- 
2.43.0


From 292a2d5b2743c66bca0585e4340ba4f2ae7e3ac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:57 +0000
Subject: [PATCH 22/43] fix: keep float32 precision in NewFloat32f and
 NewObject

---
 new.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/new.go b/new.go
index 2cad136..10e6f6d 100644
--- a/new.go
+++ b/new.go
@@ -149,7 +149,9 @@ func parseNewObjectKV(v *V, kv M) {
 			v.MustSetInt64(rv.Int()).At(k)
 		case reflect.Uint, reflect.Uint64, reflect.Uint32, reflect.Uint16, reflect.Uint8:
 			v.MustSetUint64(rv.Uint()).At(k)
-		case reflect.Float32, reflect.Float64:
+		case reflect.Float32:
+			v.MustSetFloat32(float32(rv.Float())).At(k)
+		case reflect.Float64:
 			v.MustSetFloat64(rv.Float()).At(k)
 		case reflect.String:
 			v.MustSetString(rv.String()).At(k)
@@ -225,7 +227,7 @@ func NewFloat32f(f float32, format byte, prec int) *V {
 	if err := validateFloat64Format(format); err != nil {
 		format = 'g'
 	}
-	return newFloat64f(globalPool{}, float64(f), format, prec, 64)
+	return newFloat64f(globalPool{}, float64(f), format, prec, 32)
 }
 
 // -------- internal functions --------
-- 
2.43.0


From 8737741f034d50a5cff528ab82304effa82bc0de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:16 +0000
Subject: [PATCH 23/43] fix: format floats the same way as encoding/json as
 documented

---
 new.go | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/new.go b/new.go
index 10e6f6d..f64a487 100644
--- a/new.go
+++ b/new.go
@@ -184,11 +184,11 @@ func NewArray() *V {
 func NewFloat64(f float64) *V {
 	abs := math.Abs(f)
 	format := byte('f')
-	if abs < 1e-6 || abs >= 1e21 {
+	if abs != 0 && (abs < 1e-6 || abs >= 1e21) {
 		format = byte('e')
 	}
 
-	return newFloat64f(globalPool{}, f, format, -1, 64)
+	return shortenExponent(newFloat64f(globalPool{}, f, format, -1, 64))
 }
 
 // NewFloat64f returns an initialized num jsonvalue value by float64 type. The format and prec parameter are used in
@@ -211,11 +211,11 @@ func NewFloat32(f float32) *V {
 	f64 := float64(f)
 	abs := math.Abs(f64)
 	format := byte('f')
-	if abs < 1e-6 || abs >= 1e21 {
+	if abs != 0 && (float32(abs) < 1e-6 || float32(abs) >= 1e21) {
 		format = byte('e')
 	}
 
-	return newFloat64f(globalPool{}, f64, format, -1, 32)
+	return shortenExponent(newFloat64f(globalPool{}, f64, format, -1, 32))
 }
 
 // NewFloat32f returns an initialized num jsonvalue value by float64 type. The format and prec parameter are used in
@@ -267,6 +267,16 @@ func newFloat64f(p pool, f float64, format byte, prec, bitSize int) *V {
 	return v
 }
 
+// shortenExponent cleans up e-09 to e-9, just like encoding/json does
+func shortenExponent(v *V) *V {
+	b := v.srcByte
+	if n := len(b); n >= 4 && b[n-4] == 'e' && b[n-3] == '-' && b[n-2] == '0' {
+		b[n-2] = b[n-1]
+		v.srcByte = b[:n-1]
+	}
+	return v
+}
+
 func validateFloat64Format(f byte) error {
 	switch f {
 	case 'f', 'E', 'e', 'G', 'g':
-- 
2.43.0


From 51cfabc27735d8c5f1d2d97002a489f8dbb38155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:48:45 +0000
Subject: [PATCH 24/43] fix: Import should copy a V given by value or by double
 pointer, keeping its set sequence

---
 import_export.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/import_export.go b/import_export.go
index e6536e2..fcca196 100644
--- a/import_export.go
+++ b/import_export.go
@@ -68,8 +68,8 @@ func validateValAndReturnParser(v reflect.Value, ex ext) (out reflect.Value, fu
 	// json.Marshaler and encoding.TextMarshaler
 	if o, f := checkAndParseMarshaler(v); f != nil {
 		// jsonvalue itself
-		if _, ok := v.Interface().(deepCopier); ok {
-			return out, parseJSONValueDeepCopier, nil
+		if _, ok := o.Interface().(deepCopier); ok {
+			return o, parseJSONValueDeepCopier, nil
 		}
 		return o, f, nil
 	}
-- 
2.43.0


From ba231b9c6d9fae9e0ac3b57f8d2648f76cfaadcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:49:11 +0000
Subject: [PATCH 25/43] fix: Import should not panic on a struct embedding *V
 or an interface holding a nil *V

---
 import_export.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/import_export.go b/import_export.go
index fcca196..020bec6 100644
--- a/import_export.go
+++ b/import_export.go
@@ -199,10 +199,11 @@ func getPointerOfValue(v reflect.Value) reflect.Value {
 }
 
 func parseJSONValueDeepCopier(v reflect.Value, ex ext) (*V, error) {
-	if v.IsNil() {
+	j, _ := v.Interface().(deepCopier)
+	// v itself may also be an interface, or a struct embedding a *V
+	if p := reflect.ValueOf(j); p.Kind() == reflect.Ptr && p.IsNil() {
 		return parseNullValue(v, ex) // empty
 	}
-	j, _ := v.Interface().(deepCopier)
 	return j.deepCopy(), nil
 }
 
-- 
2.43.0


From 047b1a4f53378006c841a619b3d75fa7e4d6885d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:49:12 +0000
Subject: [PATCH 26/43] fix: Import should return error for a not-exist V
 instead of embedding it

---
 import_export.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/import_export.go b/import_export.go
index 020bec6..88ba9ae 100644
--- a/import_export.go
+++ b/import_export.go
@@ -204,7 +204,11 @@ func parseJSONValueDeepCopier(v reflect.Value, ex ext) (*V, error) {
 	if p := reflect.ValueOf(j); p.Kind() == reflect.Ptr && p.IsNil() {
 		return parseNullValue(v, ex) // empty
 	}
-	return j.deepCopy(), nil
+	res := j.deepCopy()
+	if res.valueType == NotExist {
+		return &V{}, ErrValueUninitialized // not a JSON value
+	}
+	return res, nil
 }
 
 func parseJSONMarshaler(v reflect.Value, ex ext) (*V, error) {
-- 
2.43.0


From 6fcbba617ca580912e67648432eeb056a5cbfbc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:07 +0000
Subject: [PATCH 27/43] fix: set sequence should survive more than 2^32 sets on
 one object

---
 iteration.go | 2 +-
 jsonvalue.go | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/iteration.go b/iteration.go
index ca182a1..8ecac04 100644
--- a/iteration.go
+++ b/iteration.go
@@ -52,7 +52,7 @@ func (v *V) RangeObjectsBySetSequence(callback func(k string, v *V) bool) {
 
 	type keysAndID struct {
 		k  string
-		id uint32
+		id uint64
 		v  *V
 	}
 
diff --git a/jsonvalue.go b/jsonvalue.go
index eb3faf7..c42c413 100644
--- a/jsonvalue.go
+++ b/jsonvalue.go
@@ -119,12 +119,12 @@ type num struct {
 }
 
 type childWithProperty struct {
-	id uint32
+	id uint64
 	v  *V
 }
 
 type children struct {
-	incrID uint32
+	incrID uint64
 	arr    []*V
 	object map[string]childWithProperty
 
-- 
2.43.0


From 8f9b9790fed48be675e8d5c687c6bf57fe01df5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:07:22 +0000
Subject: [PATCH 28/43] fix: Import should take tag `json:"-,"` as a field
 named "-", like encoding/json

---
 import_export.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/import_export.go b/import_export.go
index 88ba9ae..f7e9ca4 100644
--- a/import_export.go
+++ b/import_export.go
@@ -46,6 +46,7 @@ type ext struct {
 	// standard encoding/json tag
 	omitempty bool
 	toString  bool
+	ignored   bool
 
 	// revert of isExported
 	private bool
@@ -507,7 +508,7 @@ func parseStructFieldValue(
 	}
 
 	fieldName, ex := readFieldTag(ft, "json", parentEx)
-	if fieldName == "-" {
+	if ex.ignored {
 		return
 	}
 
@@ -534,7 +535,7 @@ func parseStructAnonymousFieldValue(
 ) (keys []string, children []*V, err error) {
 
 	fieldName, ex := readAnonymousFieldTag(ft, "json", parentEx)
-	if fieldName == "-" {
+	if ex.ignored {
 		return nil, nil, nil
 	}
 	if fv.Kind() == reflect.Ptr && fv.IsNil() {
@@ -587,6 +588,9 @@ func readFieldTag(ft reflect.StructField, name string, parentEx ext) (field stri
 			ignoreOmitempty: parentEx.ignoreOmitempty,
 		}
 	}
+	if tg == "-" {
+		return "", ext{ignored: true}
+	}
 
 	parts := strings.Split(tg, ",")
 	for i, s := range parts {
-- 
2.43.0


From 8d71e748ed5c0e1bdc762e7ef69f97cc65a4281b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:07:24 +0000
Subject: [PATCH 29/43] fix: Import should apply tag option "string" only to
 scalars and pointers to scalars

---
 import_export.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/import_export.go b/import_export.go
index f7e9ca4..06d1274 100644
--- a/import_export.go
+++ b/import_export.go
@@ -422,6 +422,9 @@ func parsePtrValue(v reflect.Value, ex ext) (*V, error) {
 		return parseNullValue(v, ex)
 	}
 	ex.omitempty = false // omitempty takes effect on the pointer itself
+	if v.Type().Elem().Kind() == reflect.Ptr {
+		ex.toString = false // tag 'string' takes effect to scalars and pointers to scalars only
+	}
 
 	v, fu, err := validateValAndReturnParser(v.Elem(), ex)
 	if err != nil {
-- 
2.43.0


From a4a3c2ad93b7be9f3b2846a7235769b4bb6c7cde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:07:26 +0000
Subject: [PATCH 30/43] fix: Import should return error for NaN and Inf with
 tag option "string" instead of an empty string

---
 import_export.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/import_export.go b/import_export.go
index 06d1274..8ae349f 100644
--- a/import_export.go
+++ b/import_export.go
@@ -323,8 +323,8 @@ func parseFloat64Value(v reflect.Value, ex ext) (*V, error) {
 		return nil, nil
 	}
 	if ex.toString {
-		f64 := NewFloat64(f)
-		return NewString(f64.MustMarshalString()), nil
+		s, err := NewFloat64(f).MarshalString()
+		return NewString(s), err
 	}
 	return NewFloat64(f), nil
 }
@@ -335,8 +335,8 @@ func parseFloat32Value(v reflect.Value, ex ext) (*V, error) {
 		return nil, nil
 	}
 	if ex.toString {
-		f32 := NewFloat32(float32(f))
-		return NewString(f32.MustMarshalString()), nil
+		s, err := NewFloat32(float32(f)).MarshalString()
+		return NewString(s), err
 	}
 	return NewFloat32(float32(f)), nil
 }
-- 
2.43.0


From 9cdaab91164efd142d210760a922584f48cf73dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:07:27 +0000
Subject: [PATCH 31/43] fix: Import should omit zero-length array with
 omitempty, like encoding/json

---
 import_export.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/import_export.go b/import_export.go
index 8ae349f..64e327c 100644
--- a/import_export.go
+++ b/import_export.go
@@ -342,6 +342,9 @@ func parseFloat32Value(v reflect.Value, ex ext) (*V, error) {
 }
 
 func parseArrayValue(v reflect.Value, ex ext) (*V, error) {
+	if v.Len() == 0 && ex.shouldOmitEmpty() {
+		return nil, nil
+	}
 	ex.omitempty = false
 	ex.toString = false // tag 'string' takes effect to scalar fields only
 	res := NewArray()
-- 
2.43.0


From 5654852dd9b6c7bbd036c778984ba1f5d4440f01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:08:06 +0000
Subject: [PATCH 32/43] fix: Import should encode named byte slices as base64,
 like []byte

---
 import_export.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/import_export.go b/import_export.go
index 64e327c..cec00ca 100644
--- a/import_export.go
+++ b/import_export.go
@@ -131,7 +131,7 @@ func validateValAndReturnParser(v reflect.Value, ex ext) (out reflect.Value, fu
 		fu = parsePtrValue
 
 	case reflect.Slice:
-		if v.Type() == reflect.TypeOf([]byte{}) {
+		if isBytesType(v.Type()) {
 			fu = parseBytesValue
 		} else {
 			fu = parseSliceValue
@@ -448,8 +448,17 @@ func parseSliceValue(v reflect.Value, ex ext) (*V, error) {
 	return parseArrayValue(v, ex)
 }
 
+// isBytesType tells whether a slice type is encoded as base64 string, see encoding/json.
+func isBytesType(t reflect.Type) bool {
+	if t.Elem().Kind() != reflect.Uint8 {
+		return false
+	}
+	p := reflect.PtrTo(t.Elem())
+	return !p.Implements(internal.types.JSONMarshaler) && !p.Implements(internal.types.TextMarshaler)
+}
+
 func parseBytesValue(v reflect.Value, ex ext) (*V, error) {
-	b := v.Interface().([]byte)
+	b := v.Bytes()
 	if len(b) == 0 && ex.shouldOmitEmpty() {
 		return nil, nil
 	}
-- 
2.43.0


From 48614888c121c609709e7b54d2cfb2540cb287dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:08:08 +0000
Subject: [PATCH 33/43] fix: Import should support map keys of
 encoding.TextMarshaler

---
 import_export.go | 43 ++++++++++++++++++++++++++++++++++---------
 1 file changed, 34 insertions(+), 9 deletions(-)

diff --git a/import_export.go b/import_export.go
index cec00ca..9ecbe07 100644
--- a/import_export.go
+++ b/import_export.go
@@ -116,15 +116,25 @@ func validateValAndReturnParser(v reflect.Value, ex ext) (out reflect.Value, fu
 		return out, fu, err
 
 	case reflect.Map:
-		switch v.Type().Key().Kind() {
+		switch kt := v.Type().Key(); kt.Kind() {
 		default:
+			if kt.Implements(internal.types.TextMarshaler) {
+				fu = parseTextMapValue
+				break
+			}
 			err = fmt.Errorf("unsupported key type for a map: %v", v.Type().Key())
 		case reflect.String:
 			fu = parseStringMapValue
 		case reflect.Int, reflect.Int64, reflect.Int32, reflect.Int16, reflect.Int8:
 			fu = parseIntMapValue
+			if kt.Implements(internal.types.TextMarshaler) {
+				fu = parseTextMapValue
+			}
 		case reflect.Uintptr, reflect.Uint, reflect.Uint64, reflect.Uint32, reflect.Uint16, reflect.Uint8:
 			fu = parseUintMapValue
+			if kt.Implements(internal.types.TextMarshaler) {
+				fu = parseTextMapValue
+			}
 		}
 
 	case reflect.Ptr:
@@ -369,7 +379,7 @@ func parseArrayValue(v reflect.Value, ex ext) (*V, error) {
 	return res, nil
 }
 
-func parseMapValue(v reflect.Value, ex ext, keyFunc func(key reflect.Value) string) (*V, error) {
+func parseMapValue(v reflect.Value, ex ext, keyFunc func(key reflect.Value) (string, error)) (*V, error) {
 	if v.IsNil() {
 		return parseNullValue(v, ex)
 	}
@@ -396,27 +406,42 @@ func parseMapValue(v reflect.Value, ex ext, keyFunc func(key reflect.Value) stri
 		if err != nil {
 			return res, err
 		}
-		res.MustSet(child).At(keyFunc(kk))
+		k, err := keyFunc(kk)
+		if err != nil {
+			return res, err
+		}
+		res.MustSet(child).At(k)
 	}
 
 	return res, nil
 }
 
 func parseStringMapValue(v reflect.Value, ex ext) (*V, error) {
-	return parseMapValue(v, ex, func(k reflect.Value) string {
-		return k.String()
+	return parseMapValue(v, ex, func(k reflect.Value) (string, error) {
+		return k.String(), nil
 	})
 }
 
 func parseIntMapValue(v reflect.Value, ex ext) (*V, error) {
-	return parseMapValue(v, ex, func(k reflect.Value) string {
-		return strconv.FormatInt(k.Int(), 10)
+	return parseMapValue(v, ex, func(k reflect.Value) (string, error) {
+		return strconv.FormatInt(k.Int(), 10), nil
 	})
 }
 
 func parseUintMapValue(v reflect.Value, ex ext) (*V, error) {
-	return parseMapValue(v, ex, func(k reflect.Value) string {
-		return strconv.FormatUint(k.Uint(), 10)
+	return parseMapValue(v, ex, func(k reflect.Value) (string, error) {
+		return strconv.FormatUint(k.Uint(), 10), nil
+	})
+}
+
+// parseTextMapValue parses map with keys of encoding.TextMarshaler
+func parseTextMapValue(v reflect.Value, ex ext) (*V, error) {
+	return parseMapValue(v, ex, func(k reflect.Value) (string, error) {
+		if (k.Kind() == reflect.Ptr || k.Kind() == reflect.Interface) && k.IsNil() {
+			return "", nil
+		}
+		b, err := k.Interface().(encoding.TextMarshaler).MarshalText()
+		return string(b), err
 	})
 }
 
-- 
2.43.0


From 34cbcb1b609d3a0307cf2fc42058a97cc7e822f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:27 +0000
Subject: [PATCH 34/43] fix: Import should follow the rules of encoding/json
 for embedded structs

---
 import_export.go | 185 ++++++++++++++++++++++-------------------------
 1 file changed, 86 insertions(+), 99 deletions(-)

diff --git a/import_export.go b/import_export.go
index 9ecbe07..cc838c2 100644
--- a/import_export.go
+++ b/import_export.go
@@ -47,9 +47,7 @@ type ext struct {
 	omitempty bool
 	toString  bool
 	ignored   bool
-
-	// revert of isExported
-	private bool
+	named     bool // there is a name in the tag
 
 	// extended jsonvalue options
 	ignoreOmitempty bool
@@ -59,7 +57,7 @@ func (e ext) shouldOmitEmpty() bool {
 	if e.ignoreOmitempty {
 		return false
 	}
-	return e.omitempty || e.private
+	return e.omitempty
 }
 
 // validateValAndReturnParser 检查入参合法性并返回相应的处理函数
@@ -160,7 +158,7 @@ func validateValAndReturnParser(v reflect.Value, ex ext) (out reflect.Value, fu
 // Hit marshaler if fu is not nil.
 func checkAndParseMarshaler(v reflect.Value) (out reflect.Value, fu parserFunc) {
 	out = v
-	if !v.IsValid() {
+	if !v.IsValid() || !v.CanInterface() {
 		return
 	}
 
@@ -505,23 +503,24 @@ func parseStringValue(v reflect.Value, ex ext) (*V, error) {
 }
 
 func parseStructValue(v reflect.Value, ex ext) (*V, error) {
-	t := v.Type()
-	numField := t.NumField()
-
 	res := NewObject()
 
-	for i := 0; i < numField; i++ {
-		vv := v.Field(i)
-		tt := t.Field(i)
+	for _, f := range structFields(v.Type(), ex) {
+		fv, ok := fieldByIndex(v, f.index)
+		if !ok {
+			continue // field of a nil embedded struct
+		}
 
-		keys, children, err := parseStructFieldValue(vv, tt, ex)
+		fv, fu, err := validateValAndReturnParser(fv, f.ex)
 		if err != nil {
-			return nil, err
+			return nil, fmt.Errorf("parsing field '%s' error: %w", f.name, err)
 		}
-
-		for i, k := range keys {
-			v := children[i]
-			res.MustSet(v).At(k)
+		child, err := fu(fv, f.ex)
+		if err != nil {
+			return nil, fmt.Errorf("parsing field '%s' error: %w", f.name, err)
+		}
+		if child != nil {
+			res.MustSet(child).At(f.name)
 		}
 	}
 
@@ -535,89 +534,89 @@ func parseNullValue(_ reflect.Value, ex ext) (*V, error) {
 	return NewNull(), nil
 }
 
-func parseStructFieldValue(
-	fv reflect.Value, ft reflect.StructField, parentEx ext,
-) (keys []string, children []*V, err error) {
-
-	if ft.Anonymous {
-		return parseStructAnonymousFieldValue(fv, ft, parentEx)
-	}
-
-	if !fv.CanInterface() {
-		return
-	}
+// structField is a field of a struct, or one promoted from its embedded structs.
+type structField struct {
+	name   string
+	tagged bool
+	index  []int
+	ex     ext
+}
 
-	fieldName, ex := readFieldTag(ft, "json", parentEx)
-	if ex.ignored {
-		return
+// dominates tells whether f hides another field with the same name.
+func (f structField) dominates(another structField) bool {
+	if len(f.index) != len(another.index) {
+		return len(f.index) < len(another.index)
 	}
+	return f.tagged && !another.tagged
+}
 
-	fv, fu, err := validateValAndReturnParser(fv, ex)
-	if err != nil {
-		err = fmt.Errorf("parsing field '%s' error: %w", fieldName, err)
-		return
+// structFields lists fields of a struct under the same rules as encoding/json: fields of embedded structs are
+// promoted unless there is a name in the tag; among the fields with the same name, the shallowest one wins, then
+// the tagged one, and all of them are ignored if there is no winner.
+func structFields(t reflect.Type, ex ext) []structField {
+	all := collectStructFields(nil, t, nil, map[reflect.Type]bool{}, ex)
+	byName := make(map[string][]int, len(all))
+	for i, f := range all {
+		byName[f.name] = append(byName[f.name], i)
 	}
 
-	child, err := fu(fv, ex)
-	if err != nil {
-		err = fmt.Errorf("parsing field '%s' error: %w", fieldName, err)
-		return
-	}
-	if child != nil {
-		return []string{fieldName}, []*V{child}, nil
+	res := make([]structField, 0, len(all))
+	for i, f := range all {
+		wins := true
+		for _, j := range byName[f.name] {
+			wins = wins && (i == j || f.dominates(all[j]))
+		}
+		if wins {
+			res = append(res, f)
+		}
 	}
-
-	return nil, nil, nil
+	return res
 }
 
-func parseStructAnonymousFieldValue(
-	fv reflect.Value, ft reflect.StructField, parentEx ext,
-) (keys []string, children []*V, err error) {
-
-	fieldName, ex := readAnonymousFieldTag(ft, "json", parentEx)
-	if ex.ignored {
-		return nil, nil, nil
-	}
-	if fv.Kind() == reflect.Ptr && fv.IsNil() {
-		if ex.shouldOmitEmpty() {
-			return nil, nil, nil
-		}
-		return []string{fieldName}, []*V{NewNull()}, nil
+func collectStructFields(
+	res []structField, t reflect.Type, index []int, parents map[reflect.Type]bool, parentEx ext,
+) []structField {
+	if parents[t] {
+		return res // recursive embedding
 	}
+	parents[t] = true
+	defer delete(parents, t)
 
-	fv, fu, err := validateValAndReturnParser(fv, ex)
-	if err != nil {
-		err = fmt.Errorf("parsing anonymous field error: %w", err)
-		return
-	}
+	for i := 0; i < t.NumField(); i++ {
+		ft := t.Field(i)
+		typ := ft.Type
+		if ft.Anonymous && typ.Kind() == reflect.Ptr {
+			typ = typ.Elem()
+		}
+		if ft.PkgPath != "" && !(ft.Anonymous && typ.Kind() == reflect.Struct) {
+			continue // unexported
+		}
+		name, ex := readFieldTag(ft, "json", parentEx)
+		if ex.ignored {
+			continue
+		}
 
-	child, err := fu(fv, ex)
-	if err != nil {
-		err = fmt.Errorf("parsing anonymous field error: %w", err)
-		return
-	}
-	if child == nil {
-		return nil, nil, nil
+		fieldIndex := append(append([]int{}, index...), i)
+		if ft.Anonymous && !ex.named && typ.Kind() == reflect.Struct {
+			res = collectStructFields(res, typ, fieldIndex, parents, parentEx)
+			continue
+		}
+		res = append(res, structField{name: name, tagged: ex.named, index: fieldIndex, ex: ex})
 	}
+	return res
+}
 
-	switch child.ValueType() {
-	default: // invalid
-		return nil, nil, nil
-
-	case String, Number, Boolean, Null, Array:
-		if ex.private {
-			return nil, nil, nil
+func fieldByIndex(v reflect.Value, index []int) (reflect.Value, bool) {
+	for i, n := range index {
+		if i > 0 && v.Kind() == reflect.Ptr {
+			if v.IsNil() {
+				return v, false
+			}
+			v = v.Elem()
 		}
-		return []string{fieldName}, []*V{child}, nil
-
-	case Object:
-		child.RangeObjectsBySetSequence(func(k string, c *V) bool {
-			keys = append(keys, k)
-			children = append(children, c)
-			return true
-		})
-		return
+		v = v.Field(n)
 	}
+	return v, true
 }
 
 func readFieldTag(ft reflect.StructField, name string, parentEx ext) (field string, ex ext) {
@@ -645,22 +644,10 @@ func readFieldTag(ft reflect.StructField, name string, parentEx ext) (field stri
 	}
 
 	field = parts[0]
-	if field == "" {
+	ex.named = field != ""
+	if !ex.named {
 		field = ft.Name
 	}
 	ex.ignoreOmitempty = parentEx.ignoreOmitempty
 	return
 }
-
-func readAnonymousFieldTag(ft reflect.StructField, name string, parentEx ext) (field string, ex ext) {
-	field, ex = readFieldTag(ft, name, parentEx)
-
-	firstChar := ft.Name[0]
-	if firstChar >= 'A' && firstChar <= 'Z' {
-		ex.private = false
-	} else {
-		ex.private = true
-	}
-
-	return
-}
-- 
2.43.0


From 3e8dc7e307774fa225d8fbe57454b138d06a1d24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:46:57 +0000
Subject: [PATCH 35/43] fix: with indent, an object whose members are all
 omitted should be written as {}

---
 marshal.go | 15 ++++++++-------
 sort.go    |  8 ++++----
 2 files changed, 12 insertions(+), 11 deletions(-)

diff --git a/marshal.go b/marshal.go
index 02f706a..0a9659a 100644
--- a/marshal.go
+++ b/marshal.go
@@ -230,36 +230,37 @@ func marshalObject(v *V, parentInfo *ParentInfo, buf buffer.Buffer, opt *Opt) {
 
 	opt.indent.cnt++
 	_ = buf.WriteByte('{')
+	written := false // whether there is any child written
 
 	if opt.MarshalLessFunc != nil {
 		sov := newSortObjectV(v, parentInfo, opt)
-		sov.marshalObjectWithLessFunc(buf, opt)
+		written = sov.marshalObjectWithLessFunc(buf, opt)
 
 	} else if len(opt.MarshalKeySequence) > 0 {
 		sssv := newSortStringSliceV(v, opt)
-		sssv.marshalObjectWithStringSlice(buf, opt)
+		written = sssv.marshalObjectWithStringSlice(buf, opt)
 
 	} else if opt.marshalBySetSequence {
 		sssv := newSortStringSliceVBySetSeq(v)
-		sssv.marshalObjectWithStringSlice(buf, opt)
+		written = sssv.marshalObjectWithStringSlice(buf, opt)
 
 	} else {
-		writeObjectKVInRandomizedSequence(v, buf, opt)
+		written = writeObjectKVInRandomizedSequence(v, buf, opt)
 	}
 
 	opt.indent.cnt--
-	if opt.indent.enabled {
+	if opt.indent.enabled && written {
 		_ = buf.WriteByte('\n')
 		writeIndent(buf, opt)
 	}
 	_ = buf.WriteByte('}')
 }
 
-func writeObjectKVInRandomizedSequence(v *V, buf buffer.Buffer, opt *Opt) {
-	firstWritten := false
+func writeObjectKVInRandomizedSequence(v *V, buf buffer.Buffer, opt *Opt) (firstWritten bool) {
 	for k, child := range v.children.object {
 		firstWritten = writeObjectChildren(nil, buf, !firstWritten, k, child.v, opt)
 	}
+	return firstWritten
 }
 
 func writeObjectChildren(
diff --git a/sort.go b/sort.go
index c9c63ca..1a4bf45 100644
--- a/sort.go
+++ b/sort.go
@@ -186,17 +186,17 @@ func DefaultStringSequence(parent *ParentInfo, key1, key2 string, v1, v2 *V) boo
 	return strings.Compare(key1, key2) <= 0
 }
 
-func (sov *sortObjectV) marshalObjectWithLessFunc(buf buffer.Buffer, opt *Opt) {
+func (sov *sortObjectV) marshalObjectWithLessFunc(buf buffer.Buffer, opt *Opt) (firstWritten bool) {
 	// sort
 	sort.Sort(sov)
 
 	// marshal
-	firstWritten := false
 	for i, key := range sov.keys {
 		child := sov.values[i]
 		par := newParentInfo(child, sov.parentInfo, stringKey(key))
 		firstWritten = writeObjectChildren(par, buf, !firstWritten, key, child, opt)
 	}
+	return firstWritten
 }
 
 type sortObjectV struct {
@@ -235,16 +235,16 @@ func newSortObjectV(v *V, parentInfo *ParentInfo, opt *Opt) *sortObjectV {
 }
 
 // marshalObjectWithStringSlice use a slice to determine sequence of object
-func (sssv *sortStringSliceV) marshalObjectWithStringSlice(buf buffer.Buffer, opt *Opt) {
+func (sssv *sortStringSliceV) marshalObjectWithStringSlice(buf buffer.Buffer, opt *Opt) (firstWritten bool) {
 	// sort
 	sort.Sort(sssv)
 
 	// marshal
-	firstWritten := false
 	for i, key := range sssv.keys {
 		child := sssv.values[i]
 		firstWritten = writeObjectChildren(nil, buf, !firstWritten, key, child, opt)
 	}
+	return firstWritten
 }
 
 type sortStringSliceV struct {
-- 
2.43.0


From c81a5bc2dc11d8545c909875612513e5e4061bea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:46:59 +0000
Subject: [PATCH 36/43] fix: a key path given to a less function should not be
 overwritten by that of a sibling

---
 sort.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sort.go b/sort.go
index 1a4bf45..db215bc 100644
--- a/sort.go
+++ b/sort.go
@@ -166,9 +166,10 @@ func newParentInfo(v *V, nilableParentInfo *ParentInfo, key Key) *ParentInfo {
 		}
 	}
 
+	path := nilableParentInfo.KeyPath
 	return &ParentInfo{
 		Parent:  v,
-		KeyPath: append(nilableParentInfo.KeyPath, &key),
+		KeyPath: append(path[:len(path):len(path)], &key), // siblings should not share the same space
 	}
 }
 
-- 
2.43.0


From 95b837f34327bb1b5982a36b3814dadcf92c3239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:01:24 +0000
Subject: [PATCH 37/43] fix: Contains should return false for a nil
 *jsonvalue.V subset instead of panicking

---
 beta/contain.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/beta/contain.go b/beta/contain.go
index ae3b374..6daa184 100644
--- a/beta/contain.go
+++ b/beta/contain.go
@@ -23,6 +23,9 @@ func Contains(v *jsonvalue.V, sub any, inPath ...any) bool {
 			return false
 		}
 	}
+	if subV == nil {
+		return false
+	}
 	if len(inPath) > 0 {
 		v, err = v.Get(inPath[0], inPath[1:]...)
 		if err != nil {
-- 
2.43.0


From f3b8c30a737646ff603ebaefc6cca5e80d9926b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:10:32 +0000
Subject: [PATCH 38/43] fix: compare numbers with huge exponents exactly and
 without expanding them

---
 compare.go | 73 ++++++++++++++++++++++++++++++++++++++++++++++--------
 1 file changed, 62 insertions(+), 11 deletions(-)

diff --git a/compare.go b/compare.go
index 0edbc91..8207f24 100644
--- a/compare.go
+++ b/compare.go
@@ -3,8 +3,8 @@ package jsonvalue
 import (
 	"bytes"
 	"math"
-
-	"github.com/shopspring/decimal"
+	"math/big"
+	"strings"
 )
 
 // GreaterThan returns whether v is greater than another value.
@@ -53,9 +53,7 @@ func greaterThan(left, right *V) (result, ok bool) {
 		l, r := left.num.f64, right.num.f64
 		return l > r, !math.IsNaN(l) && !math.IsNaN(r)
 	}
-	a1, _ := decimal.NewFromString(string(left.srcByte))
-	a2, _ := decimal.NewFromString(string(right.srcByte))
-	return a1.GreaterThan(a2), true
+	return compareDecimal(left.srcByte, right.srcByte) > 0, true
 }
 
 // isNaNOrInf tells whether a number has no decimal representation
@@ -74,9 +72,64 @@ func greaterOrEqualThan(left, right *V) (result, ok bool) {
 	if bytes.Equal(left.srcByte, right.srcByte) {
 		return true, true
 	}
-	a1, _ := decimal.NewFromString(string(left.srcByte))
-	a2, _ := decimal.NewFromString(string(right.srcByte))
-	return a1.GreaterThanOrEqual(a2), true
+	return compareDecimal(left.srcByte, right.srcByte) >= 0, true
+}
+
+// decimalNumber represents 0.digits * 10^exp. There are no zeros at both sides of the digits, and no digits for zero.
+type decimalNumber struct {
+	negative bool
+	digits   string
+	exp      *big.Int
+}
+
+func parseDecimal(b []byte) (d decimalNumber) {
+	s := string(b)
+	d.exp = &big.Int{}
+	if i := strings.IndexAny(s, "eE"); i >= 0 {
+		d.exp.SetString(strings.TrimPrefix(s[i+1:], "+"), 10)
+		s = s[:i]
+	}
+	if strings.HasPrefix(s, "-") {
+		d.negative, s = true, s[1:]
+	}
+	point := strings.IndexByte(s, '.')
+	if point < 0 {
+		point = len(s)
+	} else {
+		s = s[:point] + s[point+1:]
+	}
+	d.digits = strings.TrimLeft(s, "0")
+	d.exp.Add(d.exp, big.NewInt(int64(point-len(s)+len(d.digits))))
+	d.digits = strings.TrimRight(d.digits, "0")
+	return d
+}
+
+// compareDecimal compares two numbers exactly without expanding their exponents, which may be huge in both directions.
+// It returns a positive integer if left is greater, a negative one if left is less, 0 if they are equal.
+func compareDecimal(left, right []byte) int {
+	l, r := parseDecimal(left), parseDecimal(right)
+	switch {
+	case l.digits == "" && r.digits == "":
+		return 0
+	case l.digits == "":
+		l.negative = !r.negative
+	case r.digits == "":
+		r.negative = !l.negative
+	}
+
+	res := l.exp.Cmp(r.exp)
+	if res == 0 {
+		res = strings.Compare(l.digits, r.digits)
+	}
+	switch {
+	case l.negative && r.negative:
+		return -res
+	case l.negative:
+		return -1
+	case r.negative:
+		return 1
+	}
+	return res
 }
 
 // Equal shows whether the content of two JSON values equal to each other.
@@ -117,9 +170,7 @@ func numberEqual(left, right *V) bool {
 		return true
 	}
 
-	d1, _ := decimal.NewFromString(string(left.srcByte))
-	d2, _ := decimal.NewFromString(string(right.srcByte))
-	return d1.Equal(d2)
+	return compareDecimal(left.srcByte, right.srcByte) == 0
 }
 
 func objectEqual(left, right *V) bool {
-- 
2.43.0


From a65abe09d2a309ccb91db1c99bdcc7dcca9b3c14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:26:48 +0000
Subject: [PATCH 39/43] fix: a negative number that is too small for a double
 is negative

---
 unmarshal.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unmarshal.go b/unmarshal.go
index c4ed828..c8c1287 100644
--- a/unmarshal.go
+++ b/unmarshal.go
@@ -869,7 +869,7 @@ func (it iter) parseFloatResult(p pool, start, end int) (*V, error) {
 	v := new(p, Number)
 	v.srcByte = it[start:end]
 
-	v.num.negative = f < 0
+	v.num.negative = it[start] == '-'
 	v.num.floated = true
 	v.num.i64 = int64(f)
 	v.num.u64 = uint64(f)
-- 
2.43.0


From dddc40b73ec4963988c059b95c42c401028d57dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:38 +0000
Subject: [PATCH 40/43] fix: NaN and infinities are not integers

---
 jsonvalue.go | 3 ++-
 new.go       | 2 ++
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/jsonvalue.go b/jsonvalue.go
index c42c413..287d527 100644
--- a/jsonvalue.go
+++ b/jsonvalue.go
@@ -42,6 +42,7 @@ package jsonvalue
 
 import (
 	"bytes"
+	"math"
 	"strconv"
 	"strings"
 
@@ -364,7 +365,7 @@ func (v *V) GreaterThanInt64Max() bool {
 	if v.valueType != Number {
 		return false
 	}
-	if v.num.negative {
+	if v.num.negative || math.IsNaN(v.num.f64) {
 		return false
 	}
 	return v.num.u64 > 0x7fffffffffffffff
diff --git a/new.go b/new.go
index f64a487..22d194e 100644
--- a/new.go
+++ b/new.go
@@ -262,6 +262,8 @@ func newFloat64f(p pool, f float64, format byte, prec, bitSize int) *V {
 		s := strconv.FormatFloat(f, format, prec, bitSize)
 		v.srcByte = []byte(s)
 		v.num.floated = strings.ContainsAny(s, ".eE")
+	} else {
+		v.num.floated = true // NaN and infinities are not integers
 	}
 
 	return v
-- 
2.43.0


From b9f2e97f72043776d7e368d1e2dd4b799ad96f70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:21:53 +0000
Subject: [PATCH 41/43] fix: names in json tags keep their blanks when
 importing

---
 import_export.go | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/import_export.go b/import_export.go
index cc838c2..1b2c368 100644
--- a/import_export.go
+++ b/import_export.go
@@ -632,14 +632,11 @@ func readFieldTag(ft reflect.StructField, name string, parentEx ext) (field stri
 	}
 
 	parts := strings.Split(tg, ",")
-	for i, s := range parts {
-		parts[i] = strings.TrimSpace(s)
-		if i > 0 {
-			if s == "omitempty" {
-				ex.omitempty = true
-			} else if s == "string" {
-				ex.toString = true
-			}
+	for _, s := range parts[1:] {
+		if s == "omitempty" {
+			ex.omitempty = true
+		} else if s == "string" {
+			ex.toString = true
 		}
 	}
 
-- 
2.43.0


From 599c98f8732270e9314f9a9bb8382d7b660b4700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:59:42 +0000
Subject: [PATCH 42/43] fix: import of cyclic Go data fails instead of
 exhausting the stack

---
 import_export.go | 63 +++++++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 62 insertions(+), 1 deletion(-)

diff --git a/import_export.go b/import_export.go
index 1b2c368..1f1654f 100644
--- a/import_export.go
+++ b/import_export.go
@@ -26,7 +26,7 @@ func (v *V) Export(dst any) error {
 // Import 将符合 encoding/json 的 struct 转为 *V 类型。不经过 encoding/json，并且支持 Option.
 func Import(src any, opts ...Option) (*V, error) {
 	opt := combineOptions(opts)
-	ext := ext{}
+	ext := ext{refs: &references{}}
 	ext.ignoreOmitempty = opt.ignoreJsonOmitempty
 	v, fu, err := validateValAndReturnParser(reflect.ValueOf(src), ext)
 	if err != nil {
@@ -51,6 +51,47 @@ type ext struct {
 
 	// extended jsonvalue options
 	ignoreOmitempty bool
+
+	// pointers, maps and slices on the way to the current value
+	refs *references
+}
+
+// references detects cycles in the same way as encoding/json does: not until there are a lot of levels.
+type references struct {
+	level   int
+	visited map[reference]struct{}
+}
+
+type reference struct {
+	typ reflect.Type
+	ptr uintptr
+	len int
+}
+
+const startDetectCyclesAfter = 1000
+
+// enter should be called before the content of a pointer, map or slice is parsed, and leave afterwards.
+func (r *references) enter(v reflect.Value) (leave func(), err error) {
+	r.level++
+	if r.level <= startDetectCyclesAfter {
+		return func() { r.level-- }, nil
+	}
+
+	ref := reference{typ: v.Type(), ptr: v.Pointer()}
+	if v.Kind() == reflect.Slice {
+		ref.len = v.Len()
+	}
+	if _, exist := r.visited[ref]; exist {
+		return nil, fmt.Errorf("jsonvalue: encountered a cycle via %v", v.Type())
+	}
+	if r.visited == nil {
+		r.visited = map[reference]struct{}{}
+	}
+	r.visited[ref] = struct{}{}
+	return func() {
+		r.level--
+		delete(r.visited, ref)
+	}, nil
 }
 
 func (e ext) shouldOmitEmpty() bool {
@@ -390,6 +431,12 @@ func parseMapValue(v reflect.Value, ex ext, keyFunc func(key reflect.Value) (str
 		return NewObject(), nil
 	}
 
+	leave, err := ex.refs.enter(v)
+	if err != nil {
+		return nil, err
+	}
+	defer leave()
+
 	res := NewObject()
 	ex.omitempty = false // omitempty takes effect on the map itself
 	ex.toString = false  // tag 'string' takes effect to scalar fields only
@@ -452,6 +499,12 @@ func parsePtrValue(v reflect.Value, ex ext) (*V, error) {
 		ex.toString = false // tag 'string' takes effect to scalars and pointers to scalars only
 	}
 
+	leave, err := ex.refs.enter(v)
+	if err != nil {
+		return nil, err
+	}
+	defer leave()
+
 	v, fu, err := validateValAndReturnParser(v.Elem(), ex)
 	if err != nil {
 		return nil, err
@@ -468,6 +521,12 @@ func parseSliceValue(v reflect.Value, ex ext) (*V, error) {
 		return NewArray(), nil
 	}
 
+	leave, err := ex.refs.enter(v)
+	if err != nil {
+		return nil, err
+	}
+	defer leave()
+
 	return parseArrayValue(v, ex)
 }
 
@@ -625,6 +684,7 @@ func readFieldTag(ft reflect.StructField, name string, parentEx ext) (field stri
 	if tg == "" {
 		return ft.Name, ext{
 			ignoreOmitempty: parentEx.ignoreOmitempty,
+			refs:            parentEx.refs,
 		}
 	}
 	if tg == "-" {
@@ -646,5 +706,6 @@ func readFieldTag(ft reflect.StructField, name string, parentEx ext) (field stri
 		field = ft.Name
 	}
 	ex.ignoreOmitempty = parentEx.ignoreOmitempty
+	ex.refs = parentEx.refs
 	return
 }
-- 
2.43.0


From d6253ebac7552f0cf50b9a2a7efc728b9436c5f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:09:25 +0000
Subject: [PATCH 43/43] fix: default marshal options keep their own copy of the
 key sequence

---
 option.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/option.go b/option.go
index 8c43d9a..07cca1c 100644
--- a/option.go
+++ b/option.go
@@ -214,6 +214,8 @@ func (o Opt) mergeTo(tgt *Opt) {
 func SetDefaultMarshalOptions(opts ...Option) {
 	opt := emptyOptions()
 	opt.combineOptionsFrom(opts)
+	// the caller may change its slice afterwards
+	opt.MarshalKeySequence = append([]string(nil), opt.MarshalKeySequence...)
 	internal.defaultMarshalOption.Store(opt)
 }
 
-- 
2.43.0

