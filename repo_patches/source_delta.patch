From ee384d7ef9c1c5ccff8106637c945ce755d80923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:29 +0000
Subject: [PATCH 01/31] fix: write integers in base 10 in the
 Int32/Int64/Uint/Uint32/Uint64 variants

The bit size (32, 64) was passed to strconv.FormatInt/FormatUint as the base:
base 32 wrote wrong digits (AddInt32(json, 100) added 34) and base 64 panics.
---
 inter_add.go | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/inter_add.go b/inter_add.go
index 5eb2cad..5a21e61 100755
--- a/inter_add.go
+++ b/inter_add.go
@@ -253,7 +253,7 @@ func AddKeyValueUint(json []byte, key string, value uint, path ...string) ([]byt
 	if len(key) == 0 {
 		return json, errNullKey()
 	}
-	return AddKeyValue(json, key, []byte(strconv.FormatUint(uint64(value), 64)), path...)
+	return AddKeyValue(json, key, []byte(strconv.FormatUint(uint64(value), 10)), path...)
 }
 
 // AddKeyValueInt32 is a variation of AddKeyValue() func.
@@ -262,7 +262,7 @@ func AddKeyValueInt32(json []byte, key string, value int32, path ...string) ([]b
 	if len(key) == 0 {
 		return json, errNullKey()
 	}
-	return AddKeyValue(json, key, []byte(strconv.FormatInt(int64(value), 32)), path...)
+	return AddKeyValue(json, key, []byte(strconv.FormatInt(int64(value), 10)), path...)
 }
 
 // AddKeyValueInt64 is a variation of AddKeyValue() func.
@@ -271,7 +271,7 @@ func AddKeyValueInt64(json []byte, key string, value int64, path ...string) ([]b
 	if len(key) == 0 {
 		return json, errNullKey()
 	}
-	return AddKeyValue(json, key, []byte(strconv.FormatInt(value, 64)), path...)
+	return AddKeyValue(json, key, []byte(strconv.FormatInt(value, 10)), path...)
 }
 
 // AddKeyValueUint32 is a variation of AddKeyValue() func.
@@ -280,7 +280,7 @@ func AddKeyValueUint32(json []byte, key string, value uint32, path ...string) ([
 	if len(key) == 0 {
 		return json, errNullKey()
 	}
-	return AddKeyValue(json, key, []byte(strconv.FormatUint(uint64(value), 32)), path...)
+	return AddKeyValue(json, key, []byte(strconv.FormatUint(uint64(value), 10)), path...)
 }
 
 // AddKeyValueUint64 is a variation of AddKeyValue() func.
@@ -289,7 +289,7 @@ func AddKeyValueUint64(json []byte, key string, value uint64, path ...string) ([
 	if len(key) == 0 {
 		return json, errNullKey()
 	}
-	return AddKeyValue(json, key, []byte(strconv.FormatUint(value, 64)), path...)
+	return AddKeyValue(json, key, []byte(strconv.FormatUint(value, 10)), path...)
 }
 
 // AddKeyValueFloat is a variation of AddKeyValue() func.
@@ -328,31 +328,31 @@ func AddInt(json []byte, value int, path ...string) ([]byte, error) {
 // AddInt32 is a variation of Add() func.
 // Type of new value must be an integer.
 func AddInt32(json []byte, value int32, path ...string) ([]byte, error) {
-	return Add(json, []byte(strconv.FormatInt(int64(value), 32)), path...)
+	return Add(json, []byte(strconv.FormatInt(int64(value), 10)), path...)
 }
 
 // AddInt64 is a variation of Add() func.
 // Type of new value must be an integer.
 func AddInt64(json []byte, value int64, path ...string) ([]byte, error) {
-	return Add(json, []byte(strconv.FormatInt(value, 64)), path...)
+	return Add(json, []byte(strconv.FormatInt(value, 10)), path...)
 }
 
 // AddUint is a variation of Add() func.
 // Type of new value must be an integer.
 func AddUint(json []byte, value uint, path ...string) ([]byte, error) {
-	return Add(json, []byte(strconv.FormatUint(uint64(value), 64)), path...)
+	return Add(json, []byte(strconv.FormatUint(uint64(value), 10)), path...)
 }
 
 // AddUint32 is a variation of Add() func.
 // Type of new value must be an integer.
 func AddUint32(json []byte, value uint32, path ...string) ([]byte, error) {
-	return Add(json, []byte(strconv.FormatUint(uint64(value), 32)), path...)
+	return Add(json, []byte(strconv.FormatUint(uint64(value), 10)), path...)
 }
 
 // AddUint64 is a variation of Add() func.
 // Type of new value must be an integer.
 func AddUint64(json []byte, value uint64, path ...string) ([]byte, error) {
-	return Add(json, []byte(strconv.FormatUint(value, 64)), path...)
+	return Add(json, []byte(strconv.FormatUint(value, 10)), path...)
 }
 
 // AddFloat is a variation of Add() func.
@@ -394,7 +394,7 @@ func InsertInt32(json []byte, index int, value int32, path ...string) ([]byte, e
 	if index < 0 {
 		return json, errIndexOutOfRange()
 	}
-	return Insert(json, index, []byte(strconv.FormatInt(int64(value), 32)), path...)
+	return Insert(json, index, []byte(strconv.FormatInt(int64(value), 10)), path...)
 }
 
 // InsertInt64 is a variation of Insert() func.
@@ -403,7 +403,7 @@ func InsertInt64(json []byte, index int, value int64, path ...string) ([]byte, e
 	if index < 0 {
 		return json, errIndexOutOfRange()
 	}
-	return Insert(json, index, []byte(strconv.FormatInt(value, 64)), path...)
+	return Insert(json, index, []byte(strconv.FormatInt(value, 10)), path...)
 }
 
 // InsertUint is a variation of Insert() func.
@@ -412,7 +412,7 @@ func InsertUint(json []byte, index int, value uint, path ...string) ([]byte, err
 	if index < 0 {
 		return json, errIndexOutOfRange()
 	}
-	return Insert(json, index, []byte(strconv.FormatUint(uint64(value), 64)), path...)
+	return Insert(json, index, []byte(strconv.FormatUint(uint64(value), 10)), path...)
 }
 
 // InsertUint32 is a variation of Insert() func.
@@ -421,7 +421,7 @@ func InsertUint32(json []byte, index int, value uint32, path ...string) ([]byte,
 	if index < 0 {
 		return json, errIndexOutOfRange()
 	}
-	return Insert(json, index, []byte(strconv.FormatUint(uint64(value), 32)), path...)
+	return Insert(json, index, []byte(strconv.FormatUint(uint64(value), 10)), path...)
 }
 
 // InsertUint64 is a variation of Insert() func.
@@ -430,7 +430,7 @@ func InsertUint64(json []byte, index int, value uint64, path ...string) ([]byte,
 	if index < 0 {
 		return json, errIndexOutOfRange()
 	}
-	return Insert(json, index, []byte(strconv.FormatUint(value, 64)), path...)
+	return Insert(json, index, []byte(strconv.FormatUint(value, 10)), path...)
 }
 
 // InsertFloat is a variation of Insert() func.
-- 
2.43.0


From 1ad45f8af9b73f0f23d488c8d020450506ab64f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:29 +0000
Subject: [PATCH 02/31] fix: AddKeyValueString and InsertString return the
 document on a rejected argument

They returned nil, so JO.AddKeyValueString("", ...) and JO.InsertString(-1, ...)
wiped the object they were called on.
---
 inter_add.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/inter_add.go b/inter_add.go
index 5a21e61..6fdaede 100755
--- a/inter_add.go
+++ b/inter_add.go
@@ -233,7 +233,7 @@ func Insert(json []byte, index int, value []byte, path ...string) ([]byte, error
 // Type of new value must be a string.
 func AddKeyValueString(json []byte, key, value string, path ...string) ([]byte, error) {
 	if len(key) == 0 {
-		return nil, errNullKey()
+		return json, errNullKey()
 	}
 	return AddKeyValue(json, key, []byte(formatType(value)), path...)
 }
@@ -374,7 +374,7 @@ func AddBool(json []byte, value bool, path ...string) ([]byte, error) {
 // Type of new value must be an string.
 func InsertString(json []byte, index int, value string, path ...string) ([]byte, error) {
 	if index < 0 {
-		return nil, errIndexOutOfRange()
+		return json, errIndexOutOfRange()
 	}
 	return Insert(json, index, []byte(formatType(value)), path...)
 }
-- 
2.43.0


From a1edcde0f5cdda487f616ae8d9271e79232f3333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:30 +0000
Subject: [PATCH 03/31] fix: JO.StoreString stores a JSON string like
 StoreString does

It stored the bare characters, so StoreString("k", "v") produced {"k":v}.
---
 jin_object_add.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jin_object_add.go b/jin_object_add.go
index 49e602d..f126d76 100644
--- a/jin_object_add.go
+++ b/jin_object_add.go
@@ -127,7 +127,7 @@ func (j *JO) Store(key string, value []byte, path ...string) error {
 // StoreString jin_object method for same function name with interpreter
 func (j *JO) StoreString(key string, value string, path ...string) error {
 	var err error
-	j.body, err = Store(j.body, key, []byte(value), path...)
+	j.body, err = StoreString(j.body, key, value, path...)
 	return err
 }
 
-- 
2.43.0


From a094b2a9ce6503683ef7c73c961dbb7c3fb22be4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:58 +0000
Subject: [PATCH 04/31] fix: stop skipping spaces at the end of the document

The bound was tested after the byte was read, so an empty or blank document (and
a document cut right after a colon or a comma) panicked instead of returning an
error.
---
 inter_core.go | 22 ++++++++++------------
 inter_get.go  | 27 ++++++++++++---------------
 inter_iter.go | 18 ++++++++----------
 inter_type.go | 24 +++++++++---------------
 parse_core.go |  8 ++++----
 utils.go      | 15 +++++----------
 6 files changed, 48 insertions(+), 66 deletions(-)

diff --git a/inter_core.go b/inter_core.go
index 1ef3958..9ed16ee 100755
--- a/inter_core.go
+++ b/inter_core.go
@@ -31,13 +31,12 @@ func core(json []byte, justStart bool, path ...string) (int, int, int, error) {
 		isJSONChar[v] = true
 	}
 	// trim spaces of start
-	for space(json[offset]) {
-		// json length overflow control
-		if offset > len(json)-1 {
-			return -1, -1, -1, errBadJSON(offset)
-		}
+	for offset < len(json) && space(json[offset]) {
 		offset++
-		continue
+	}
+	// json length overflow control
+	if offset >= len(json) {
+		return -1, -1, -1, errBadJSON(offset)
 	}
 	// braceType determine whether or not search will be a key search or index search
 	braceType := json[offset]
@@ -397,13 +396,12 @@ func core(json []byte, justStart bool, path ...string) (int, int, int, error) {
 		return -1, -1, -1, errBadJSON(0)
 	}
 	// skip spaces from top.
-	for space(json[offset]) {
-		// json length overflow control
-		if offset > len(json)-1 {
-			return -1, -1, -1, errBadJSON(offset)
-		}
+	for offset < len(json) && space(json[offset]) {
 		offset++
-		continue
+	}
+	// json length overflow control
+	if offset >= len(json) {
+		return -1, -1, -1, errBadJSON(offset)
 	}
 	if justStart {
 		return keyStart, offset, 0, nil
diff --git a/inter_get.go b/inter_get.go
index 369126f..6e886b7 100755
--- a/inter_get.go
+++ b/inter_get.go
@@ -317,12 +317,11 @@ func GetKeys(json []byte, path ...string) ([]string, error) {
 	var start int
 	var err error
 	if len(path) == 0 {
-		for space(json[start]) {
-			if start > len(json)-1 {
-				return nil, errBadJSON(start)
-			}
+		for start < len(json) && space(json[start]) {
 			start++
-			continue
+		}
+		if start >= len(json) {
+			return nil, errBadJSON(start)
 		}
 	} else {
 		_, start, _, err = core(json, true, path...)
@@ -407,12 +406,11 @@ func GetValues(json []byte, path ...string) ([]string, error) {
 	var start int
 	var err error
 	if len(path) == 0 {
-		for space(json[start]) {
-			if start > len(json)-1 {
-				return nil, errBadJSON(start)
-			}
+		for start < len(json) && space(json[start]) {
 			start++
-			continue
+		}
+		if start >= len(json) {
+			return nil, errBadJSON(start)
 		}
 	} else {
 		_, start, _, err = core(json, true, path...)
@@ -499,12 +497,11 @@ func GetKeysValues(json []byte, path ...string) ([]string, []string, error) {
 	var start int
 	var err error
 	if len(path) == 0 {
-		for space(json[start]) {
-			if start > len(json)-1 {
-				return nil, nil, errBadJSON(start)
-			}
+		for start < len(json) && space(json[start]) {
 			start++
-			continue
+		}
+		if start >= len(json) {
+			return nil, nil, errBadJSON(start)
 		}
 	} else {
 		_, start, _, err = core(json, true, path...)
diff --git a/inter_iter.go b/inter_iter.go
index 0b3138b..6c7d2b8 100755
--- a/inter_iter.go
+++ b/inter_iter.go
@@ -16,12 +16,11 @@ func IterateArray(json []byte, callback func([]byte) (bool, error), path ...stri
 	var start int
 	var err error
 	if len(path) == 0 {
-		for space(json[start]) {
-			if start > len(json)-2 {
-				return errBadJSON(start)
-			}
+		for start < len(json) && space(json[start]) {
 			start++
-			continue
+		}
+		if start >= len(json) {
+			return errBadJSON(start)
 		}
 	} else {
 		_, start, _, err = core(json, true, path...)
@@ -113,12 +112,11 @@ func IterateKeyValue(json []byte, callback func([]byte, []byte) (bool, error), p
 	var err error
 	var end int
 	if len(path) == 0 {
-		for space(json[start]) {
-			if start > len(json)-1 {
-				return errBadJSON(start)
-			}
+		for start < len(json) && space(json[start]) {
 			start++
-			continue
+		}
+		if start >= len(json) {
+			return errBadJSON(start)
 		}
 	} else {
 		_, start, _, err = core(json, true, path...)
diff --git a/inter_type.go b/inter_type.go
index fd8015a..23e225a 100755
--- a/inter_type.go
+++ b/inter_type.go
@@ -92,19 +92,14 @@ func IsEmpty(json []byte, path ...string) (bool, error) {
 	var end int = len(json) - 1
 	var err error
 	if len(path) == 0 {
-		for space(json[start]) {
-			if start > len(json)-1 {
-				return false, errBadJSON(start)
-			}
+		for start < len(json) && space(json[start]) {
 			start++
-			continue
 		}
-		for space(json[end]) {
-			if end < 1 {
-				return false, errBadJSON(end)
-			}
+		if start >= len(json) {
+			return false, errBadJSON(start)
+		}
+		for end > start && space(json[end]) {
 			end--
-			continue
 		}
 	} else {
 		_, start, end, err = core(json, false, path...)
@@ -137,12 +132,11 @@ func typeControlCore(json []byte, control []byte, equal bool, path ...string) (b
 	var start int
 	var err error
 	if len(path) == 0 {
-		for space(json[start]) {
-			if start > len(json)-1 {
-				return false, -1, errBadJSON(start)
-			}
+		for start < len(json) && space(json[start]) {
 			start++
-			continue
+		}
+		if start >= len(json) {
+			return false, -1, errBadJSON(start)
 		}
 	} else {
 		_, start, _, err = core(json, true, path...)
diff --git a/parse_core.go b/parse_core.go
index 0dee1ff..a770407 100755
--- a/parse_core.go
+++ b/parse_core.go
@@ -21,12 +21,12 @@ func pCore(json []byte, core *node) error {
 	for _, v := range chars {
 		isJSONChar[v] = true
 	}
-	for space(json[start]) {
-		if start > len(json)-1 {
-			return nil
-		}
+	for start < len(json) && space(json[start]) {
 		start++
 	}
+	if start >= len(json) {
+		return nil
+	}
 	for i := start; i < lenj; i++ {
 		curr := json[i]
 		if !isJSONChar[curr] {
diff --git a/utils.go b/utils.go
index 09ff21e..ec2d402 100755
--- a/utils.go
+++ b/utils.go
@@ -163,20 +163,15 @@ func getStartEnd(json []byte, path ...string) (int, int, error) {
 			return -1, -1, err
 		}
 	} else {
-		for space(json[start]) {
-			if start > len(json)-1 {
-				return -1, -1, errBadJSON(start)
-			}
+		for start < len(json) && space(json[start]) {
 			start++
-			continue
+		}
+		if start >= len(json) {
+			return -1, -1, errBadJSON(start)
 		}
 		end = lenj - 1
-		for space(json[end]) {
-			if end < start {
-				return -1, -1, errBadJSON(start)
-			}
+		for end > start && space(json[end]) {
 			end--
-			continue
 		}
 	}
 	return start, end, nil
-- 
2.43.0


From 5d02a29d2d6cf42929e07e6ddfa9219c00b7c182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:58 +0000
Subject: [PATCH 05/31] fix: edits on a document cut right after the addressed
 value return an error

Set, Store, Insert and Delete read the byte after the value without checking that
there is one: Delete([]byte("[{}"), "0") panicked. Insert had no length check at
all, and Insert and Delete took position 0 for the byte after the value when
there was none.
---
 inter_add.go      |  8 +++++++-
 inter_delete.go   | 11 +++++++----
 inter_set.go      |  4 ++--
 jin_object_add.go |  2 +-
 4 files changed, 17 insertions(+), 8 deletions(-)

diff --git a/inter_add.go b/inter_add.go
index 6fdaede..e868655 100755
--- a/inter_add.go
+++ b/inter_add.go
@@ -145,6 +145,9 @@ func Insert(json []byte, index int, value []byte, path ...string) ([]byte, error
 	var start int
 	var end int
 	var err error
+	if len(json) < 2 {
+		return json, errBadJSON(0)
+	}
 	if len(path) == 0 {
 		for i := 0; i < len(json); i++ {
 			if !space(json[i]) {
@@ -188,7 +191,7 @@ func Insert(json []byte, index int, value []byte, path ...string) ([]byte, error
 	if json[start-1] == 34 {
 		start--
 	}
-	if json[end] == 34 {
+	if end < len(json) && json[end] == 34 {
 		end++
 	}
 	var startEdge int
@@ -205,6 +208,9 @@ func Insert(json []byte, index int, value []byte, path ...string) ([]byte, error
 			break
 		}
 	}
+	if endEdge == 0 {
+		return json, errBadJSON(end)
+	}
 	if (json[startEdge] == 91 || json[startEdge] == 123) && json[startEdge]+2 == json[endEdge] {
 		val := make([]byte, 0, len(value)+1)
 		val = append(val, value...)
diff --git a/inter_delete.go b/inter_delete.go
index c96ffd5..f195aa6 100755
--- a/inter_delete.go
+++ b/inter_delete.go
@@ -15,13 +15,13 @@ func Delete(json []byte, path ...string) ([]byte, error) {
 	start := 0
 	if ks == -1 {
 		start = s
+		if json[start-1] == 34 {
+			start--
+		}
 	} else {
 		start = ks - 1
 	}
-	if json[start-1] == 34 {
-		start--
-	}
-	if json[e] == 34 {
+	if e < len(json) && json[e] == 34 {
 		e++
 	}
 	var startEdge int
@@ -38,6 +38,9 @@ func Delete(json []byte, path ...string) ([]byte, error) {
 			break
 		}
 	}
+	if endEdge == 0 {
+		return json, errBadJSON(e)
+	}
 	if (json[startEdge] == 91 || json[startEdge] == 123) && json[startEdge]+2 == json[endEdge] {
 		json = replace(json, []byte{}, start, e)
 		return json, nil
diff --git a/inter_set.go b/inter_set.go
index f32c914..88b5927 100755
--- a/inter_set.go
+++ b/inter_set.go
@@ -16,7 +16,7 @@ func Set(json []byte, newValue []byte, path ...string) ([]byte, error) {
 	if err != nil {
 		return json, err
 	}
-	if json[start-1] == 34 && json[end] == 34 {
+	if end < len(json) && json[start-1] == 34 && json[end] == 34 {
 		return replace(json, newValue, start-1, end+1), nil
 	}
 	return replace(json, newValue, start, end), nil
@@ -99,7 +99,7 @@ func Store(json []byte, key string, value []byte, path ...string) ([]byte, error
 		}
 		return json, err
 	}
-	if json[start-1] == 34 && json[end] == 34 {
+	if end < len(json) && json[start-1] == 34 && json[end] == 34 {
 		return replace(json, value, start-1, end+1), nil
 	}
 	return replace(json, value, start, end), nil
diff --git a/jin_object_add.go b/jin_object_add.go
index f126d76..0637fb4 100644
--- a/jin_object_add.go
+++ b/jin_object_add.go
@@ -116,7 +116,7 @@ func (j *JO) Store(key string, value []byte, path ...string) error {
 		}
 		return err
 	}
-	if j.body[start-1] == 34 && j.body[end] == 34 {
+	if end < len(j.body) && j.body[start-1] == 34 && j.body[end] == 34 {
 		j.body = replace(j.body, value, start-1, end+1)
 		return nil
 	}
-- 
2.43.0


From 84c52888406deb5a08301734a424a69cc1fc9ef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:58 +0000
Subject: [PATCH 06/31] fix: an empty path element does not match before any
 key is read

The key span started as an empty one at 0, which the path element "" matched at a
stray colon: Delete([]byte("{::}}"), "") panicked with index -2.
---
 inter_core.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/inter_core.go b/inter_core.go
index 9ed16ee..5bae6bd 100755
--- a/inter_core.go
+++ b/inter_core.go
@@ -189,8 +189,8 @@ func core(json []byte, justStart bool, path ...string) (int, int, int, error) {
 			// Key found flag.
 			found := false
 			// Key start index.
-			start := 0
-			// Key end index.
+			start := 1
+			// Key end index. It is before start until a key is read, so no path element matches.
 			end := 0
 			// Current level.
 			level := k
-- 
2.43.0


From 89aa33992e17c355353aef18cd22e496990eb4fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:59 +0000
Subject: [PATCH 07/31] fix: a colon without a key does not make the key
 iterators panic

The initial key span json[0+1:0] is not a valid range: GetKeys([]byte("{:}"))
panicked.
---
 inter_get.go  | 4 ++--
 inter_iter.go | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/inter_get.go b/inter_get.go
index 6e886b7..089727b 100755
--- a/inter_get.go
+++ b/inter_get.go
@@ -335,7 +335,7 @@ func GetKeys(json []byte, path ...string) ([]string, error) {
 		isJSONChar[v] = true
 	}
 	if json[start] == 123 {
-		keyStart := 0
+		keyStart := -1
 		keyEnd := 0
 		inQuote := false
 		level := 0
@@ -515,7 +515,7 @@ func GetKeysValues(json []byte, path ...string) ([]string, []string, error) {
 		isJSONChar[v] = true
 	}
 	if json[start] == 123 {
-		keyStart := 0
+		keyStart := -1
 		keyEnd := 0
 		inQuote := false
 		level := 0
diff --git a/inter_iter.go b/inter_iter.go
index 6c7d2b8..265faea 100755
--- a/inter_iter.go
+++ b/inter_iter.go
@@ -130,7 +130,7 @@ func IterateKeyValue(json []byte, callback func([]byte, []byte) (bool, error), p
 		isJSONChar[v] = true
 	}
 	if json[start] == 123 {
-		keyStart := 0
+		keyStart := -1
 		keyEnd := 0
 		inQuote := false
 		level := 0
-- 
2.43.0


From 5f25d85365b2bdc860be084a12b13ebaf177c1f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:54 +0000
Subject: [PATCH 08/31] fix: Insert before a last element that follows a space
 keeps the array valid

The comma of the new element was put next to the space instead of next to the
existing comma: Insert([]byte("[1, 2]"), 1, []byte("9")) gave [1,,9 2].
---
 inter_add.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inter_add.go b/inter_add.go
index e868655..801a28e 100755
--- a/inter_add.go
+++ b/inter_add.go
@@ -229,7 +229,7 @@ func Insert(json []byte, index int, value []byte, path ...string) ([]byte, error
 		val := make([]byte, 0, len(value)+1)
 		val = append(val, 44)
 		val = append(val, value...)
-		json = replace(json, val, start-1, start-1)
+		json = replace(json, val, startEdge, startEdge)
 		return json, nil
 	}
 	return json, errBadJSON(start)
-- 
2.43.0


From acecbb6a84a85f8d4d70f849485106c52fa0c3ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:54 +0000
Subject: [PATCH 09/31] fix: array getters return an empty slice for an empty
 array

GetIntArray, GetFloatArray and GetBoolArray of [] panicked in cleanValueString,
and ParseArray("[ ]") made one element of the space between the brackets. A lone
quote and a run of spaces also made cleanValue and cleanValueString slice out of
range.
---
 inter_get.go |  9 +++++++++
 others.go    |  3 +++
 parse_get.go |  9 +++++++++
 utils.go     | 21 +++++++++++++++------
 4 files changed, 36 insertions(+), 6 deletions(-)

diff --git a/inter_get.go b/inter_get.go
index 089727b..d42e5f6 100755
--- a/inter_get.go
+++ b/inter_get.go
@@ -137,6 +137,9 @@ func GetIntArray(json []byte, path ...string) ([]int, error) {
 					if curr == 93 {
 						if level == 0 {
 							element := val[start:i]
+							if len(newArray) == 0 && blank(element) {
+								break
+							}
 							num, err := strconv.Atoi(cleanValueString(element))
 							if err != nil {
 								return nil, errIntegerParse(cleanValueString(element))
@@ -203,6 +206,9 @@ func GetFloatArray(json []byte, path ...string) ([]float64, error) {
 					if curr == 93 {
 						if level == 0 {
 							element := val[start:i]
+							if len(newArray) == 0 && blank(element) {
+								break
+							}
 							num, err := strconv.ParseFloat(cleanValueString(element), 64)
 							if err != nil {
 								return nil, errFloatParse(cleanValueString(element))
@@ -269,6 +275,9 @@ func GetBoolArray(json []byte, path ...string) ([]bool, error) {
 					if curr == 93 {
 						if level == 0 {
 							element := val[start:i]
+							if len(newArray) == 0 && blank(element) {
+								break
+							}
 							element = cleanValueString(element)
 							if element == "true" || element == "false" {
 								if element == "true" {
diff --git a/others.go b/others.go
index f35b3c2..c772aad 100755
--- a/others.go
+++ b/others.go
@@ -215,6 +215,9 @@ func ParseArray(arr string) []string {
 					if curr == 93 {
 						if level == 0 {
 							val := arr[start:i]
+							if len(newArray) == 0 && blank(val) {
+								break
+							}
 							val = cleanValueString(val)
 							newArray = append(newArray, val)
 							break
diff --git a/parse_get.go b/parse_get.go
index a0027a0..3891c59 100755
--- a/parse_get.go
+++ b/parse_get.go
@@ -162,6 +162,9 @@ func (p *Parser) GetIntArray(path ...string) ([]int, error) {
 					if curr == 93 {
 						if level == 0 {
 							element := val[start:i]
+							if len(newArray) == 0 && blank(element) {
+								break
+							}
 							num, err := strconv.Atoi(cleanValueString(element))
 							if err != nil {
 								return nil, errIntegerParse(cleanValueString(element))
@@ -228,6 +231,9 @@ func (p *Parser) GetFloatArray(path ...string) ([]float64, error) {
 					if curr == 93 {
 						if level == 0 {
 							element := val[start:i]
+							if len(newArray) == 0 && blank(element) {
+								break
+							}
 							num, err := strconv.ParseFloat(cleanValueString(element), 64)
 							if err != nil {
 								return nil, errFloatParse(cleanValueString(element))
@@ -294,6 +300,9 @@ func (p *Parser) GetBoolArray(path ...string) ([]bool, error) {
 					if curr == 93 {
 						if level == 0 {
 							element := val[start:i]
+							if len(newArray) == 0 && blank(element) {
+								break
+							}
 							element = cleanValueString(element)
 							if element == "true" || element == "false" {
 								if element == "true" {
diff --git a/utils.go b/utils.go
index ec2d402..fbd67e1 100755
--- a/utils.go
+++ b/utils.go
@@ -103,21 +103,30 @@ func isInt(val string) bool {
 
 func cleanValueString(str string) string {
 	start := 0
-	lens := len(str)
-	for space(str[start]) && start < lens-1 {
+	end := len(str) - 1
+	for start <= end && space(str[start]) {
 		start++
 	}
-	end := lens - 1
-	for space(str[end]) && end > 1 {
+	for end > start && space(str[end]) {
 		end--
 	}
-	if str[start] == 34 && str[end] == 34 {
+	if end > start && str[start] == 34 && str[end] == 34 {
 		start++
 		end--
 	}
 	return str[start : end+1]
 }
 
+// blank tells whether there is nothing but spaces in str
+func blank(str string) bool {
+	for i := 0; i < len(str); i++ {
+		if !space(str[i]) {
+			return false
+		}
+	}
+	return true
+}
+
 func cleanValue(str []byte) []byte {
 	if len(str) == 0 {
 		return str
@@ -137,7 +146,7 @@ func cleanValue(str []byte) []byte {
 		}
 		end--
 	}
-	if str[start] == 34 && str[end] == 34 {
+	if end > start && str[start] == 34 && str[end] == 34 {
 		start++
 		end--
 	}
-- 
2.43.0


From fb08e5e53e8eba7e46bc49c01642230660c751e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:54 +0000
Subject: [PATCH 10/31] fix: IterateKeyValue returns the error of the callback
 for the last pair

The last pair was handed over without looking at the result, so the error was
lost. A nested empty object called back with no key and the value "{", and a
missing value ({"a":}) panicked; the value is now cut with cleanValue as in
IterateArray.
---
 inter_iter.go | 54 +++++++++------------------------------------------
 1 file changed, 9 insertions(+), 45 deletions(-)

diff --git a/inter_iter.go b/inter_iter.go
index 265faea..5b1b797 100755
--- a/inter_iter.go
+++ b/inter_iter.go
@@ -110,7 +110,6 @@ func IterateKeyValue(json []byte, callback func([]byte, []byte) (bool, error), p
 	}
 	var start int
 	var err error
-	var end int
 	if len(path) == 0 {
 		for start < len(json) && space(json[start]) {
 			start++
@@ -174,24 +173,12 @@ func IterateKeyValue(json []byte, callback func([]byte, []byte) (bool, error), p
 				if curr == 93 || curr == 125 {
 					if curr == 125 {
 						if level == 1 {
-							for j := start; j < i; j++ {
-								if !space(json[j]) {
-									start = j
-									break
-								}
-							}
-							for j := i - 1; j > start-1; j-- {
-								if !space(json[j]) {
-									end = j
-									break
-								}
-							}
-							if json[start] == 34 && json[end] == 34 {
-								callback(key, json[start+1:end])
+							if key == nil {
+								// no key before the closing brace, object is empty
 								return nil
 							}
-							callback(key, json[start:end+1])
-							return nil
+							_, innerError := callback(key, cleanValue(json[start:i]))
+							return innerError
 						}
 					}
 					if level == 1 {
@@ -202,35 +189,12 @@ func IterateKeyValue(json []byte, callback func([]byte, []byte) (bool, error), p
 				}
 				if level == 1 {
 					if curr == 44 {
-						end = i - 1
-						for j := start; j < i; j++ {
-							if !space(json[j]) {
-								start = j
-								break
-							}
-						}
-						for j := i - 1; j > start; j-- {
-							if !space(json[j]) {
-								end = j
-								break
-							}
+						keepGoing, innerError := callback(key, cleanValue(json[start:i]))
+						if innerError != nil {
+							return innerError
 						}
-						if json[start] == 34 && json[end] == 34 {
-							keepGoing, innerError := callback(key, json[start+1:end])
-							if innerError != nil {
-								return innerError
-							}
-							if !keepGoing {
-								return nil
-							}
-						} else {
-							keepGoing, innerError := callback(key, json[start:end+1])
-							if innerError != nil {
-								return innerError
-							}
-							if !keepGoing {
-								return nil
-							}
+						if !keepGoing {
+							return nil
 						}
 						continue
 					}
-- 
2.43.0


From 1b0bfb2480359f9a5bf23c52691c63a94d7db8d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:55 +0000
Subject: [PATCH 11/31] fix: an empty container has no elements

IterateArray of a nested [] called back once with an empty value, and GetValues
and GetKeysValues of a nested {} returned one value, "{".
---
 inter_get.go  | 16 ++++++++++++----
 inter_iter.go |  5 +++++
 2 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/inter_get.go b/inter_get.go
index d42e5f6..284537a 100755
--- a/inter_get.go
+++ b/inter_get.go
@@ -435,6 +435,7 @@ func GetValues(json []byte, path ...string) ([]string, error) {
 	if json[start] == 123 {
 		inQuote := false
 		level := 0
+		hasKey := false
 		for i := start; i < len(json); i++ {
 			curr := json[i]
 			if !isJSONChar[curr] {
@@ -468,8 +469,10 @@ func GetValues(json []byte, path ...string) ([]string, error) {
 				}
 				if curr == 93 || curr == 125 {
 					if level == 1 {
-						value := cleanValueString(string(json[start:i]))
-						values = append(values, value)
+						if hasKey {
+							value := cleanValueString(string(json[start:i]))
+							values = append(values, value)
+						}
 						break
 					}
 					level--
@@ -477,6 +480,7 @@ func GetValues(json []byte, path ...string) ([]string, error) {
 				}
 				if curr == 58 {
 					if level == 1 {
+						hasKey = true
 						start = i + 1
 					}
 					continue
@@ -528,6 +532,7 @@ func GetKeysValues(json []byte, path ...string) ([]string, []string, error) {
 		keyEnd := 0
 		inQuote := false
 		level := 0
+		hasKey := false
 		for i := start; i < len(json); i++ {
 			curr := json[i]
 			if !isJSONChar[curr] {
@@ -566,8 +571,10 @@ func GetKeysValues(json []byte, path ...string) ([]string, []string, error) {
 				}
 				if curr == 93 || curr == 125 {
 					if level == 1 {
-						value := cleanValueString(string(json[start:i]))
-						values = append(values, value)
+						if hasKey {
+							value := cleanValueString(string(json[start:i]))
+							values = append(values, value)
+						}
 						break
 					}
 					level--
@@ -577,6 +584,7 @@ func GetKeysValues(json []byte, path ...string) ([]string, []string, error) {
 					if level == 1 {
 						key := json[keyStart+1 : keyEnd]
 						keys = append(keys, string(key))
+						hasKey = true
 						start = i + 1
 					}
 					continue
diff --git a/inter_iter.go b/inter_iter.go
index 5b1b797..337868c 100755
--- a/inter_iter.go
+++ b/inter_iter.go
@@ -37,6 +37,7 @@ func IterateArray(json []byte, callback func([]byte) (bool, error), path ...stri
 		return errArrayExpected()
 	}
 	start++
+	first := start
 	inQuote := false
 	level := 0
 	for i := start; i < len(json); i++ {
@@ -76,6 +77,10 @@ func IterateArray(json []byte, callback func([]byte) (bool, error), path ...stri
 				}
 				if curr == 93 {
 					if level == 0 {
+						if start == first && blank(string(json[start:i])) {
+							// no element before the closing brace, array is empty
+							return nil
+						}
 						_, innerError := callback(cleanValue(json[start:i]))
 						return innerError
 					}
-- 
2.43.0


From 0069befbaadede0d86410c2e243d6d935da1b1c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:55 +0000
Subject: [PATCH 12/31] fix: IsObject is false for an array

Its documentation says an object is what starts and ends with a curly brace.
---
 inter_type.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inter_type.go b/inter_type.go
index 23e225a..c721390 100755
--- a/inter_type.go
+++ b/inter_type.go
@@ -15,7 +15,7 @@ const (
 // If path points to an object it will return true, otherwise it will return false.
 // In this instance 'object' means everything that has starts and ends with curly brace.
 func IsObject(json []byte, path ...string) (bool, error) {
-	state, _, err := typeControlCore(json, []byte{91, 123}, true, path...)
+	state, _, err := typeControlCore(json, []byte{123}, true, path...)
 	if err != nil {
 		return false, err
 	}
-- 
2.43.0


From 17ad66d59672e276b34de03826b955e66d25757d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:55 +0000
Subject: [PATCH 13/31] fix: IsEmpty looks at the byte before the closing brace

end is the index of the closing brace here, so IsEmpty([]byte("[1]")) was true.
---
 inter_type.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inter_type.go b/inter_type.go
index c721390..e3e498d 100755
--- a/inter_type.go
+++ b/inter_type.go
@@ -114,7 +114,7 @@ func IsEmpty(json []byte, path ...string) (bool, error) {
 		if braceStart+2 != braceEnd {
 			return false, errBadJSON(end)
 		}
-		for i := start + 1; i < end-1; i++ {
+		for i := start + 1; i < end; i++ {
 			if !space(json[i]) {
 				return false, nil
 			}
-- 
2.43.0


From f12e9521c8c9084b684ba31263729db6150af604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:55 +0000
Subject: [PATCH 14/31] fix: GetMap and Length use the same end of range with
 and without a path

getStartEnd returned the index of the last byte without a path and the index after
it with one. GetMap(json, path) looked for the closing brace one byte too far
(GetMap of {"a":{"b":1},"c":2} at "a" failed), Length([]byte("[1]")) was 0.
---
 inter_get.go | 4 ++--
 utils.go     | 2 ++
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/inter_get.go b/inter_get.go
index 284537a..2e54f16 100755
--- a/inter_get.go
+++ b/inter_get.go
@@ -613,7 +613,7 @@ func GetMap(json []byte, path ...string) (map[string]string, error) {
 		return nil, err
 	}
 	mainMap := make(map[string]string)
-	if json[start] == 123 && json[end] == 125 {
+	if json[start] == 123 && json[end-1] == 125 {
 		err = IterateKeyValue(json, func(key, val []byte) (bool, error) {
 			mainMap[string(key)] = string(val)
 			return true, nil
@@ -623,7 +623,7 @@ func GetMap(json []byte, path ...string) (map[string]string, error) {
 		}
 		return mainMap, nil
 	}
-	if json[start] == 91 && json[end] == 93 {
+	if json[start] == 91 && json[end-1] == 93 {
 		count := 0
 		err = IterateArray(json, func(val []byte) (bool, error) {
 			mainMap[strconv.Itoa(count)] = string(val)
diff --git a/utils.go b/utils.go
index fbd67e1..8b12c8f 100755
--- a/utils.go
+++ b/utils.go
@@ -182,6 +182,8 @@ func getStartEnd(json []byte, path ...string) (int, int, error) {
 		for end > start && space(json[end]) {
 			end--
 		}
+		// end is exclusive, as in core
+		end++
 	}
 	return start, end, nil
 }
-- 
2.43.0


From 2a9b6287c9e9de9d6657cd9b0c497dd2390aa0d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:40 +0000
Subject: [PATCH 15/31] fix: building from an empty, non-nil collection gives
 [] or {}

Only nil was handled: the trailing comma removal then ate the opening brace, so
MakeArrayInt([]int{}) returned "]" and MakeJsonWithMap(map[string]string{}) "}".
---
 make.go | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/make.go b/make.go
index 15dd856..94238c4 100755
--- a/make.go
+++ b/make.go
@@ -169,7 +169,7 @@ func MakeEmptyArray() []byte {
 // Do not use any slice/array for parameter.
 // It will accept this kind types but won't be able to make valid representation for use!
 func MakeArray(elements ...interface{}) []byte {
-	if elements == nil {
+	if len(elements) == 0 {
 		return []byte{91, 93}
 	}
 	js := make([]byte, 0, 128)
@@ -187,7 +187,7 @@ func MakeArray(elements ...interface{}) []byte {
 // Parameter type must be slice of string.
 // For more information look MakeArray() function.
 func MakeArrayString(values []string) []byte {
-	if values == nil {
+	if len(values) == 0 {
 		return []byte(`[]`)
 	}
 	js := make([]byte, 0, 128)
@@ -205,7 +205,7 @@ func MakeArrayString(values []string) []byte {
 // Parameter type must be slice of integer.
 // For more information look MakeArray() function.
 func MakeArrayInt(values []int) []byte {
-	if values == nil {
+	if len(values) == 0 {
 		return []byte{91, 93}
 	}
 	js := make([]byte, 0, 128)
@@ -223,7 +223,7 @@ func MakeArrayInt(values []int) []byte {
 // Parameter type must be slice of boolean.
 // For more information look MakeArray() function.
 func MakeArrayBool(values []bool) []byte {
-	if values == nil {
+	if len(values) == 0 {
 		return []byte{91, 93}
 	}
 	js := make([]byte, 0, 128)
@@ -249,7 +249,7 @@ func MakeArrayBool(values []bool) []byte {
 // Parameter type must be slice of float64.
 // For more information look MakeArray() function.
 func MakeArrayFloat(values []float64) []byte {
-	if values == nil {
+	if len(values) == 0 {
 		return []byte{91, 93}
 	}
 	js := make([]byte, 0, 128)
@@ -279,7 +279,7 @@ func MakeArrayFloat(values []float64) []byte {
 // Parameter type must be slice of byte.
 // For more information look MakeArray() function.
 func MakeArrayBytes(values ...[]byte) []byte {
-	if values == nil {
+	if len(values) == 0 {
 		return []byte{91, 93}
 	}
 	js := make([]byte, 0, 128)
@@ -305,7 +305,7 @@ func MakeJson(keys []string, values []interface{}) []byte {
 	if len(keys) != len(values) {
 		return nil
 	}
-	if keys == nil {
+	if len(keys) == 0 {
 		return []byte{123, 125}
 	}
 	js := make([]byte, 0, 128)
@@ -328,7 +328,7 @@ func MakeJsonString(keys, values []string) []byte {
 	if len(keys) != len(values) {
 		return nil
 	}
-	if keys == nil {
+	if len(keys) == 0 {
 		return []byte{123, 125}
 	}
 	js := make([]byte, 0, 128)
@@ -348,7 +348,7 @@ func MakeJsonString(keys, values []string) []byte {
 
 // MakeJsonWithMap creates an JSON formation from given string-string-map, and returns them as byte slice.
 func MakeJsonWithMap(json map[string]string) []byte {
-	if json == nil {
+	if len(json) == 0 {
 		return []byte{123, 125}
 	}
 	js := make([]byte, 0, 128)
-- 
2.43.0


From ee4a03f62dfdc577634a018337d9b100b3fd5561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:41 +0000
Subject: [PATCH 16/31] fix: MakeArrayFloat writes every float it is given

It still looked for the exponent of the old 'e' notation: one-digit values
panicked and two-digit values were dropped (MakeArrayFloat([]float64{10}) gave []).
---
 make.go | 14 +-------------
 1 file changed, 1 insertion(+), 13 deletions(-)

diff --git a/make.go b/make.go
index 94238c4..802193a 100755
--- a/make.go
+++ b/make.go
@@ -255,19 +255,7 @@ func MakeArrayFloat(values []float64) []byte {
 	js := make([]byte, 0, 128)
 	js = append(js, 91)
 	for _, v := range values {
-		num := strconv.FormatFloat(v, 'f', -1, 64)
-		start := 0
-		for i := 0; i < len(num); i++ {
-			if num[i] == 'e' {
-				start = i
-			}
-		}
-		exp, _ := strconv.Atoi(num[start+2:])
-		if exp == 0 {
-			js = append(js, []byte(num[:start])...)
-		} else {
-			js = append(js, []byte(num)...)
-		}
+		js = append(js, []byte(strconv.FormatFloat(v, 'f', -1, 64))...)
 		js = append(js, 44)
 	}
 	js = js[:len(js)-1]
-- 
2.43.0


From 8e3d222ba0d74e66d87135de17a7ca63d34be9d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:41 +0000
Subject: [PATCH 17/31] fix: Indent handles escapes like Flatten and tolerates
 unbalanced braces

A string ending in an escaped backslash was taken as still open, a document
starting with a quote read index -1, and a closing brace too many asked for a
negative number of tabs.
---
 others.go | 11 ++++++++---
 utils.go  |  3 +++
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/others.go b/others.go
index c772aad..4c168de 100755
--- a/others.go
+++ b/others.go
@@ -106,11 +106,16 @@ func Indent(json []byte) []byte {
 	level := 0
 	for i := 0; i < len(json); i++ {
 		curr := json[i]
-		if curr == 34 {
+		if curr == 92 {
 			newJSON = append(newJSON, curr)
-			if json[i-1] == 92 {
-				continue
+			if i+1 < len(json) {
+				newJSON = append(newJSON, json[i+1])
 			}
+			i++
+			continue
+		}
+		if curr == 34 {
+			newJSON = append(newJSON, curr)
 			inQuote = !inQuote
 			continue
 		}
diff --git a/utils.go b/utils.go
index 8b12c8f..ca801e6 100755
--- a/utils.go
+++ b/utils.go
@@ -34,6 +34,9 @@ func space(curr byte) bool {
 }
 
 func createTabs(n int) []byte {
+	if n < 0 {
+		n = 0
+	}
 	res := make([]byte, n)
 	for i := range res {
 		res[i] = 9
-- 
2.43.0


From c679c9a1ee17a36626892939970156df3fe3595e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:41 +0000
Subject: [PATCH 18/31] fix: Walk stops when the callback asks for it

Returning false only ended the innermost call, so the walk went on with the next
value. The path handed to the callback also shared its array with those of its
siblings, so a path kept by the callback changed under it.
---
 utils.go |  7 +++++++
 walk.go  | 52 +++++++++++++++++++++-------------------------------
 2 files changed, 28 insertions(+), 31 deletions(-)

diff --git a/utils.go b/utils.go
index ca801e6..050d88d 100755
--- a/utils.go
+++ b/utils.go
@@ -13,6 +13,13 @@ func replace(json, newValue []byte, start, end int) []byte {
 	return newJSON
 }
 
+// appendPath returns a new path, it never writes to the array under path
+func appendPath(path []string, key string) []string {
+	newPath := make([]string, 0, len(path)+1)
+	newPath = append(newPath, path...)
+	return append(newPath, key)
+}
+
 func space(curr byte) bool {
 	// space
 	if curr == 32 {
diff --git a/walk.go b/walk.go
index 2c13fbd..414a14e 100644
--- a/walk.go
+++ b/walk.go
@@ -4,44 +4,37 @@ import "strconv"
 
 func (j *JO) Walk(callback func(k string, v []byte, p []string) (bool, error)) error {
 	path := []string{}
-	return walk(j.body, path, callback)
+	_, err := walk(j.body, path, callback)
+	return err
 }
 
 func Walk(json []byte, callback func(k string, v []byte, p []string) (bool, error)) error {
 	path := []string{}
-	return walk(json, path, callback)
+	_, err := walk(json, path, callback)
+	return err
 }
 
-func walk(json []byte, path []string, callback func(k string, v []byte, p []string) (bool, error)) error {
+func walk(json []byte, path []string, callback func(k string, v []byte, p []string) (bool, error)) (bool, error) {
 	t, err := GetType(json, path...)
 	if err != nil {
-		return err
+		return false, err
 	}
+	keepGoing := true
 	switch t {
 	case TypeObject:
-		err := IterateKeyValue(json, func(keyBytes, _ []byte) (bool, error) {
-			err = walk(json, append(path, string(keyBytes)), callback)
-			if err != nil {
-				return false, err
-			}
-			return true, nil
+		err = IterateKeyValue(json, func(keyBytes, _ []byte) (bool, error) {
+			var err error
+			keepGoing, err = walk(json, appendPath(path, string(keyBytes)), callback)
+			return keepGoing, err
 		}, path...)
-		if err != nil {
-			return err
-		}
 	case TypeArray:
 		i := 0
-		err := IterateArray(json, func(_ []byte) (bool, error) {
-			err = walk(json, append(path, strconv.Itoa(i)), callback)
-			if err != nil {
-				return false, err
-			}
+		err = IterateArray(json, func(_ []byte) (bool, error) {
+			var err error
+			keepGoing, err = walk(json, appendPath(path, strconv.Itoa(i)), callback)
 			i++
-			return true, nil
+			return keepGoing, err
 		}, path...)
-		if err != nil {
-			return err
-		}
 	default:
 		key := ""
 		if len(path) != 0 {
@@ -49,15 +42,12 @@ func walk(json []byte, path []string, callback func(k string, v []byte, p []stri
 		}
 		val, err := Get(json, path...)
 		if err != nil {
-			return err
-		}
-		keepGoing, err := callback(key, val, path)
-		if err != nil {
-			return err
-		}
-		if !keepGoing {
-			return nil
+			return false, err
 		}
+		return callback(key, val, path)
+	}
+	if err != nil {
+		return false, err
 	}
-	return nil
+	return keepGoing, nil
 }
-- 
2.43.0


From 4ecccf9b4ed74ddd738d8318137c101d476e92ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:41 +0000
Subject: [PATCH 19/31] fix: do not write to the array of the caller's path

append(path, key) on a path given as full[:n]... overwrites full[n].
---
 inter_add.go      | 4 ++--
 inter_get.go      | 4 ++--
 inter_set.go      | 2 +-
 jin_object_add.go | 2 +-
 4 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/inter_add.go b/inter_add.go
index 801a28e..73ea34b 100755
--- a/inter_add.go
+++ b/inter_add.go
@@ -60,7 +60,7 @@ func AddKeyValue(json []byte, key string, value []byte, path ...string) ([]byte,
 			json = replace(json, val, end-1, end-1)
 			return json, nil
 		}
-		path = append(path, key)
+		path = appendPath(path, key)
 		_, _, _, err = core(json, false, path...)
 		if err != nil {
 			if ErrEqual(err, ErrCodeKeyNotFound) {
@@ -184,7 +184,7 @@ func Insert(json []byte, index int, value []byte, path ...string) ([]byte, error
 	if json[start] != 91 || json[end-1] != 93 {
 		return json, errArrayExpected()
 	}
-	_, start, end, err = core(json, false, append(path, strconv.Itoa(index))...)
+	_, start, end, err = core(json, false, appendPath(path, strconv.Itoa(index))...)
 	if err != nil {
 		return json, err
 	}
diff --git a/inter_get.go b/inter_get.go
index 2e54f16..b96c7df 100755
--- a/inter_get.go
+++ b/inter_get.go
@@ -645,7 +645,7 @@ func GetAll(json []byte, keys []string, path ...string) ([]string, error) {
 	var val string
 	results := make([]string, 0, len(keys))
 	for _, k := range keys {
-		val, err = GetString(json, append(path, k)...)
+		val, err = GetString(json, appendPath(path, k)...)
 		if err != nil {
 			return nil, err
 		}
@@ -661,7 +661,7 @@ func GetAllMap(json []byte, keys []string, path ...string) (map[string]string, e
 	var val string
 	results := make(map[string]string)
 	for _, k := range keys {
-		val, err = GetString(json, append(path, k)...)
+		val, err = GetString(json, appendPath(path, k)...)
 		if err != nil {
 			return nil, err
 		}
diff --git a/inter_set.go b/inter_set.go
index 88b5927..5fed815 100755
--- a/inter_set.go
+++ b/inter_set.go
@@ -92,7 +92,7 @@ func SetKey(json []byte, newKey string, path ...string) ([]byte, error) {
 // Store sets or adds a new value to the body
 // like a real json store event
 func Store(json []byte, key string, value []byte, path ...string) ([]byte, error) {
-	_, start, end, err := core(json, false, append(path, key)...)
+	_, start, end, err := core(json, false, appendPath(path, key)...)
 	if err != nil {
 		if ErrEqual(err, ErrCodeKeyNotFound) {
 			return AddKeyValue(json, key, value, path...)
diff --git a/jin_object_add.go b/jin_object_add.go
index 0637fb4..0d668ca 100644
--- a/jin_object_add.go
+++ b/jin_object_add.go
@@ -108,7 +108,7 @@ func (j *JO) InsertBool(index int, value bool, path ...string) error {
 }
 
 func (j *JO) Store(key string, value []byte, path ...string) error {
-	_, start, end, err := core(j.body, false, append(path, key)...)
+	_, start, end, err := core(j.body, false, appendPath(path, key)...)
 	if err != nil {
 		if ErrEqual(err, ErrCodeKeyNotFound) {
 			j.body, err = AddKeyValue(j.body, key, value, path...)
-- 
2.43.0


From 3ed4247407f5e3709a3b0954fd94dab1c15cfd21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:36 +0000
Subject: [PATCH 20/31] fix: a path is resolved inside the value its previous
 elements name

---
 inter_core.go | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/inter_core.go b/inter_core.go
index 5bae6bd..30bc1e0 100755
--- a/inter_core.go
+++ b/inter_core.go
@@ -203,12 +203,13 @@ func core(json []byte, justStart bool, path ...string) (int, int, int, error) {
 				if !isJSONChar[curr] {
 					continue
 				}
+				// If key found and it is not the last path element
+				// than its value must start with a brace.
+				if found && curr != 91 && curr != 123 {
+					return -1, -1, -1, errKeyNotFound(path[k+1])
+				}
 				// If current byte is quote
 				if curr == 34 {
-					// If key found no need to determine start and end points.
-					if found {
-						continue
-					}
 					// If level not same as path level no need to determine start and end points.
 					if level != k+1 {
 						continue
@@ -313,7 +314,8 @@ func core(json []byte, justStart bool, path ...string) (int, int, int, error) {
 										continue
 									}
 									if curr == 93 || curr == 125 {
-										if innerLevel < k+1 {
+										// that brace closes the object
+										if innerLevel <= k+1 {
 											return -1, -1, -1, errKeyNotFound(currentPath)
 										}
 										innerLevel--
@@ -373,7 +375,8 @@ func core(json []byte, justStart bool, path ...string) (int, int, int, error) {
 					}
 					// Close brace
 					if curr == 93 || curr == 125 {
-						if level < k+1 {
+						// that brace closes the object
+						if level <= k+1 {
 							return -1, -1, -1, errKeyNotFound(currentPath)
 						}
 						level--
-- 
2.43.0


From 3aa460026070592ecfc3b748240b491eccd959cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:32 +0000
Subject: [PATCH 21/31] fix: Parse rejects documents whose braces do not match

---
 parse_core.go | 10 ++++++++++
 sequence.go   |  8 +++++++-
 2 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/parse_core.go b/parse_core.go
index a770407..96f17bd 100755
--- a/parse_core.go
+++ b/parse_core.go
@@ -27,6 +27,8 @@ func pCore(json []byte, core *node) error {
 	if start >= len(json) {
 		return nil
 	}
+	// a key is empty until one is read
+	end = start
 	for i := start; i < lenj; i++ {
 		curr := json[i]
 		if !isJSONChar[curr] {
@@ -79,6 +81,10 @@ func pCore(json []byte, core *node) error {
 				last = curr
 				continue
 			case 93, 125:
+				if core.up == nil {
+					// nothing to close
+					return errBadJSON(i)
+				}
 				switch last {
 				case 58:
 					newNode := &node{up: core, label: byteArrayToString(key), value: json[valStart:i]}
@@ -114,5 +120,9 @@ func pCore(json []byte, core *node) error {
 			}
 		}
 	}
+	if core.up != nil {
+		// something is not closed
+		return errBadJSON(lenj)
+	}
 	return nil
 }
diff --git a/sequence.go b/sequence.go
index e7ebac9..e6ea224 100755
--- a/sequence.go
+++ b/sequence.go
@@ -23,7 +23,7 @@ func (s *sequance) push(element int) {
 }
 
 func (s *sequance) pop() int {
-	if s.index > -1 {
+	if s.index > 0 {
 		s.index--
 		return s.list[s.index]
 	}
@@ -31,9 +31,15 @@ func (s *sequance) pop() int {
 }
 
 func (s *sequance) last() int {
+	if s.index < 1 {
+		return 0
+	}
 	return s.list[s.index-1]
 }
 
 func (s *sequance) inc() {
+	if s.index < 1 {
+		return
+	}
 	s.list[s.index-1]++
 }
-- 
2.43.0


From 54befa41688f10105858c66ebdb1314aa7cd0c41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:32 +0000
Subject: [PATCH 22/31] fix: Parse reads the element of an array of one

---
 parse_core.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/parse_core.go b/parse_core.go
index 96f17bd..986d4bb 100755
--- a/parse_core.go
+++ b/parse_core.go
@@ -93,6 +93,11 @@ func pCore(json []byte, core *node) error {
 					newNode := &node{up: core, label: strconv.Itoa(indexList.last()), value: json[valStart:i]}
 					core.down = append(core.down, newNode)
 					valStart = i + 1
+				case 91:
+					if !blank(string(json[valStart:i])) {
+						newNode := &node{up: core, label: strconv.Itoa(indexList.last()), value: json[valStart:i]}
+						core.down = append(core.down, newNode)
+					}
 				}
 				core.value = json[braceList.pop() : i+1]
 				indexList.pop()
-- 
2.43.0


From 77308cd5c2938e303287021687cf73e5eba071a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:11 +0000
Subject: [PATCH 23/31] fix: SetKey tells an existing key and an array element
 from a bad document

---
 inter_set.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/inter_set.go b/inter_set.go
index 5fed815..f1475c3 100755
--- a/inter_set.go
+++ b/inter_set.go
@@ -73,6 +73,9 @@ func SetKey(json []byte, newKey string, path ...string) ([]byte, error) {
 			if err != nil {
 				return json, err
 			}
+			if keyStart == -1 {
+				return json, errObjectExpected()
+			}
 			for i := keyStart; i < start; i++ {
 				curr := json[i]
 				if curr == 92 {
@@ -86,7 +89,7 @@ func SetKey(json []byte, newKey string, path ...string) ([]byte, error) {
 		}
 		return json, err
 	}
-	return json, errBadJSON(keyStart)
+	return json, errKeyAlreadyExist(newKey)
 }
 
 // Store sets or adds a new value to the body
-- 
2.43.0


From 7486c3a5338681b1d5155bd33dce438a2a19b8bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:11 +0000
Subject: [PATCH 24/31] fix: Parser edits keep the text and the nodes in step,
 a failed edit changes nothing

---
 parse_add.go    | 318 ++++++------------------------------------------
 parse_delete.go |  21 ++--
 parse_set.go    |  81 +++++-------
 parse_utils.go  | 104 ++++++++++++----
 4 files changed, 160 insertions(+), 364 deletions(-)

diff --git a/parse_add.go b/parse_add.go
index 8361fd1..621241c 100755
--- a/parse_add.go
+++ b/parse_add.go
@@ -8,334 +8,84 @@ import (
 // Path variable must point to an object,
 // otherwise it will provide an error message.
 func (p *Parser) AddKeyValue(key string, newVal []byte, path ...string) error {
-	lenp := len(path)
-	lenv := len(key)
-	var curr *node
-	var err error
-	if lenv == 0 {
+	if len(key) == 0 {
 		return errNullKey()
 	}
-	json, err := p.Get(path...)
+	if newVal == nil {
+		newVal = []byte("null")
+	}
+	curr, err := p.core.walk(path)
 	if err != nil {
 		return err
 	}
-	curr = p.core
-	if lenp == 0 {
-		for _, d := range curr.down {
-			if d.label == key {
-				return errKeyAlreadyExist(key)
-			}
-		}
-		if len(json) >= 2 {
-			if json[0] == 123 && json[len(json)-1] == 125 {
-				newKV := []byte(`,"` + key + `":` + string(newVal))
-				if lenv >= 2 {
-					if newVal[0] == 91 || newVal[0] == 123 {
-						newNode := createNode(nil)
-						pCore(newVal, newNode)
-						newNode.label = key
-						newNode.value = newVal
-						if len(p.json) == 2 {
-							p.json = replace(p.json, newKV[1:], len(p.json)-1, len(p.json)-1)
-						} else {
-							p.json = replace(p.json, newKV, len(p.json)-1, len(p.json)-1)
-						}
-						curr.down = append(curr.down, newNode)
-						newNode.up = curr
-						return nil
-					}
-				}
-				p.json = replace(p.json, newKV, len(p.json)-1, len(p.json)-1)
-				newNode := createNode(nil)
-				newNode.label = key
-				newNode.value = newVal
-				curr.down = append(curr.down, newNode)
-				newNode.up = curr
-				return nil
-			}
-			return errObjectExpected()
-		}
-		return errBadJSON(0)
-	}
-	curr, err = p.core.walk(path)
+	newNode, err := valueNode(key, newVal)
 	if err != nil {
 		return err
 	}
-	for _, d := range curr.up.down {
-		if d.label == key {
-			return errKeyAlreadyExist(key)
-		}
+	json, err := AddKeyValue(p.json, key, newVal, path...)
+	if err != nil {
+		return err
 	}
-	if len(json) >= 2 {
-		if json[0] == 123 && json[len(json)-1] == 125 {
-			if lenv >= 2 {
-				if newVal[0] == 91 || newVal[0] == 123 {
-					newNode := createNode(nil)
-					pCore(newVal, newNode)
-					newNode.label = key
-					newNode.value = newVal
-					curr.down = append(curr.down, newNode)
-					newNode.up = curr
-					p.json, err = AddKeyValue(p.json, key, newVal, path...)
-					if err != nil {
-						return err
-					}
-					for i := 0; i < lenp; i++ {
-						newNode = newNode.up
-						newNode.value, err = Get(p.json, path[:lenp-i]...)
-						if err != nil {
-							return err
-						}
-					}
-					return nil
-				}
-			}
-			newNode := createNode(nil)
-			newNode.label = key
-			newNode.value = newVal
-			curr.down = append(curr.down, newNode)
-			newNode.up = curr
-			p.json, err = AddKeyValue(p.json, key, newVal, path...)
-			if err != nil {
-				return err
-			}
-			for i := 0; i < lenp; i++ {
-				newNode = newNode.up
-				newNode.value, err = Get(p.json, path[:lenp-i]...)
-				if err != nil {
-					return err
-				}
-			}
-			return nil
-		}
-		return errObjectExpected()
+	err = p.refresh(json, curr, path)
+	if err != nil {
+		return err
 	}
-	return errBadJSON(0)
+	curr.attach(newNode, len(curr.down))
+	return nil
 }
 
 // Add adds a value to an array.
 // Path variable must point to an array,
 // otherwise it will provide an error message.
 func (p *Parser) Add(newVal []byte, path ...string) error {
-	lenp := len(path)
-	lenv := len(newVal)
-	var curr *node
-	var err error
-	if lenv == 0 {
+	if len(newVal) == 0 {
 		return errNullKey()
 	}
-	json, err := p.Get(path...)
+	curr, err := p.core.walk(path)
 	if err != nil {
 		return err
 	}
+	newNode, err := valueNode(strconv.Itoa(len(curr.down)), newVal)
 	if err != nil {
 		return err
 	}
-	if lenp == 0 {
-		curr = p.core
-		if len(json) >= 2 {
-			if json[0] == 91 && json[len(json)-1] == 93 {
-				newValue := []byte(`,` + string(newVal))
-				if lenv >= 2 {
-					if newVal[0] == 91 || newVal[0] == 123 {
-						newNode := createNode(nil)
-						pCore(newVal, newNode)
-						index := len(curr.down)
-						newNode.label = strconv.Itoa(index)
-						newNode.value = newVal
-						if len(p.json) == 2 {
-							p.json = replace(p.json, newValue[1:], len(p.json)-1, len(p.json)-1)
-						} else {
-							p.json = replace(p.json, newValue, len(p.json)-1, len(p.json)-1)
-						}
-						curr.down = append(curr.down, newNode)
-						newNode.up = curr
-						return nil
-					}
-				}
-				p.json = replace(p.json, newValue, len(p.json)-1, len(p.json)-1)
-				newNode := createNode(nil)
-				index := len(curr.down)
-				newNode.label = strconv.Itoa(index)
-				newNode.value = newVal
-				curr.down = append(curr.down, newNode)
-				newNode.up = curr
-				return nil
-			}
-			return errArrayExpected()
-		}
-		return errBadJSON(0)
-	}
-	curr, err = p.core.walk(path)
+	json, err := Add(p.json, newVal, path...)
 	if err != nil {
 		return err
 	}
-	if len(json) >= 2 {
-		if json[0] == 91 && json[len(json)-1] == 93 {
-			if lenv >= 2 {
-				if newVal[0] == 91 || newVal[0] == 123 {
-					newNode := createNode(nil)
-					pCore(newVal, newNode)
-					index := len(curr.down)
-					newNode.label = strconv.Itoa(index)
-					newNode.value = newVal
-					curr.down = append(curr.down, newNode)
-					newNode.up = curr
-					p.json, err = Add(p.json, newVal, path...)
-					if err != nil {
-						return err
-					}
-					for i := 0; i < lenp-1; i++ {
-						newNode = newNode.up
-						newNode.value, err = Get(p.json, path[:lenp-i]...)
-						if err != nil {
-							return err
-						}
-					}
-					return nil
-				}
-			}
-			newNode := createNode(nil)
-			index := len(curr.down)
-			newNode.label = strconv.Itoa(index)
-			newNode.value = newVal
-			curr.down = append(curr.down, newNode)
-			newNode.up = curr
-			p.json, err = Add(p.json, newVal, path...)
-			if err != nil {
-				return err
-			}
-			for i := 0; i < lenp; i++ {
-				newNode = newNode.up
-				newNode.value, err = Get(p.json, path[:lenp-i]...)
-				if err != nil {
-					return err
-				}
-			}
-			return nil
-		}
-		return errArrayExpected()
+	err = p.refresh(json, curr, path)
+	if err != nil {
+		return err
 	}
-	return errBadJSON(0)
+	curr.attach(newNode, len(curr.down))
+	return nil
 }
 
 // Insert inserts a value to an array.
 // Path variable must point to an array,
 // otherwise it will provide an error message.
 func (p *Parser) Insert(newIndex int, newVal []byte, path ...string) error {
-	lenp := len(path)
-	lenv := len(newVal)
-	var curr *node
-	var err error
-	if lenv == 0 {
+	if len(newVal) == 0 {
 		return errNullKey()
 	}
-	json, err := p.Get(path...)
+	curr, err := p.core.walk(path)
 	if err != nil {
 		return err
 	}
-	curr = p.core
-	if lenp == 0 {
-		if len(json) >= 2 {
-			if json[0] == 91 && json[len(json)-1] == 93 {
-				if lenv >= 2 {
-					if newVal[0] == 91 || newVal[0] == 123 {
-						newNode := createNode(nil)
-						pCore(newVal, newNode)
-						err = newNode.insert(curr, newIndex)
-						if err != nil {
-							return err
-						}
-						p.json, err = Insert(p.json, newIndex, newVal, path...)
-						if err != nil {
-							return err
-						}
-						err = newNode.insert(curr, newIndex)
-						if err != nil {
-							return err
-						}
-						curr.down = append(curr.down, newNode)
-						newNode.up = curr
-						return nil
-					}
-				}
-				newNode := createNode(nil)
-				err = newNode.insert(curr, newIndex)
-				if err != nil {
-					return err
-				}
-				newNode.value = newVal
-				curr.down = append(curr.down, newNode)
-				p.json, err = Insert(p.json, newIndex, newVal, path...)
-				if err != nil {
-					return err
-				}
-				err = newNode.insert(curr, newIndex)
-				if err != nil {
-					return err
-				}
-				newNode.up = curr
-				return nil
-			}
-			return errArrayExpected()
-		}
-		return errBadJSON(0)
+	newNode, err := valueNode(strconv.Itoa(newIndex), newVal)
+	if err != nil {
+		return err
 	}
-	curr, err = p.core.walk(path)
+	json, err := Insert(p.json, newIndex, newVal, path...)
 	if err != nil {
 		return err
 	}
-	if len(json) >= 2 {
-		if json[0] == 91 && json[len(json)-1] == 93 {
-			if lenv >= 2 {
-				if newVal[0] == 91 || newVal[0] == 123 {
-					newNode := createNode(nil)
-					pCore(newVal, newNode)
-					err = newNode.insert(curr, newIndex)
-					if err != nil {
-						return err
-					}
-					newNode.value = newVal
-					curr.down = append(curr.down, newNode)
-					newNode.up = curr
-					p.json, err = Insert(p.json, newIndex, newVal, path...)
-					if err != nil {
-						return err
-					}
-					for i := 0; i < lenp; i++ {
-						newNode = newNode.up
-						newNode.value, err = Get(p.json, path[:lenp-i]...)
-						if err != nil {
-							return err
-						}
-					}
-					return nil
-				}
-			}
-			newNode := createNode(nil)
-			err = newNode.insert(curr, newIndex)
-			if err != nil {
-				return err
-			}
-			newNode.value = newVal
-			curr.down = append(curr.down, newNode)
-			newNode.up = curr
-			p.json, err = Insert(p.json, newIndex, newVal, path...)
-			if err != nil {
-				return err
-			}
-			for i := 0; i < lenp; i++ {
-				newNode = newNode.up
-				newNode.value, err = Get(p.json, path[:lenp-i]...)
-				if err != nil {
-					return err
-				}
-			}
-			return nil
-		}
-		return errArrayExpected()
+	err = p.refresh(json, curr, path)
+	if err != nil {
+		return err
 	}
-	return errBadJSON(0)
+	curr.attach(newNode, newIndex)
+	return nil
 }
 
 // AddKeyValueString is a variation of AddKeyValue() func.
diff --git a/parse_delete.go b/parse_delete.go
index 726979c..72aa13b 100755
--- a/parse_delete.go
+++ b/parse_delete.go
@@ -4,27 +4,26 @@ package jin
 // Path value must be provided,
 // otherwise it will provide an error message.
 func (p *Parser) Delete(path ...string) error {
-	var err error
-	var curr *node
 	lenp := len(path)
 	if lenp == 0 {
 		return errNullPath()
 	}
-	curr, err = p.core.walk(path)
+	parent, err := p.core.walk(path[:lenp-1])
 	if err != nil {
 		return err
 	}
-	curr.deAttach()
-	p.json, err = Delete(p.json, path...)
+	index := parent.getIndex(path[lenp-1])
+	if index == -1 {
+		return errKeyNotFound(path[lenp-1])
+	}
+	json, err := Delete(p.json, path...)
 	if err != nil {
 		return err
 	}
-	for i := 0; i < lenp-1; i++ {
-		curr = curr.up
-		curr.value, err = Get(p.json, path[:lenp-i-1]...)
-		if err != nil {
-			return err
-		}
+	err = p.refresh(json, parent, path[:lenp-1])
+	if err != nil {
+		return err
 	}
+	parent.deAttach(index)
 	return nil
 }
diff --git a/parse_set.go b/parse_set.go
index d257432..9abbcaf 100755
--- a/parse_set.go
+++ b/parse_set.go
@@ -8,45 +8,31 @@ import "strconv"
 // otherwise it will provide an error message.
 func (p *Parser) Set(newVal []byte, path ...string) error {
 	lenp := len(path)
-	lenv := len(newVal)
-	var curr *node
-	var err error
 	if lenp == 0 {
 		return errNullPath()
 	}
-	curr, err = p.core.walk(path)
+	parent, err := p.core.walk(path[:lenp-1])
 	if err != nil {
 		return err
 	}
-	if lenv >= 2 {
-		if newVal[0] == 91 || newVal[0] == 123 {
-			newCore := createNode(nil)
-			pCore(newVal, newCore)
-			newCore.label = curr.label
-			newCore.up = curr.up
-			index := curr.getIndex()
-			curr.up.down[index] = newCore
-			newCore.value = newVal
-			p.json, _ = Set(p.json, newVal, path...)
-			for i := 0; i < lenp-1; i++ {
-				newCore = newCore.up
-				newCore.value, err = Get(p.json, path[:lenp-1-i]...)
-				if err != nil {
-					return err
-				}
-			}
-			return nil
-		}
+	index := parent.getIndex(path[lenp-1])
+	if index == -1 {
+		return errKeyNotFound(path[lenp-1])
 	}
-	curr.value = newVal
-	p.json, _ = Set(p.json, newVal, path...)
-	for i := 0; i < lenp-1; i++ {
-		curr = curr.up
-		curr.value, err = Get(p.json, path[:lenp-1-i]...)
-		if err != nil {
-			return err
-		}
+	newNode, err := valueNode(path[lenp-1], newVal)
+	if err != nil {
+		return err
+	}
+	json, err := Set(p.json, newVal, path...)
+	if err != nil {
+		return err
+	}
+	err = p.refresh(json, parent, path[:lenp-1])
+	if err != nil {
+		return err
 	}
+	parent.down[index] = newNode
+	newNode.up = parent
 	return nil
 }
 
@@ -86,32 +72,31 @@ func (p *Parser) SetBool(newValue bool, path ...string) error {
 // Path variable can not be null,
 func (p *Parser) SetKey(newKey string, path ...string) error {
 	lenp := len(path)
-	lenv := len(newKey)
-	var curr *node
-	var err error
 	if lenp == 0 {
 		return errNullPath()
 	}
-	if lenv == 0 {
+	if len(newKey) == 0 {
 		return errNullKey()
 	}
-	curr, err = p.core.walk(path)
+	parent, err := p.core.walk(path[:lenp-1])
 	if err != nil {
 		return err
 	}
-	for _, d := range curr.up.down {
-		if d.label == newKey {
-			return errKeyAlreadyExist(newKey)
-		}
+	index := parent.getIndex(path[lenp-1])
+	if index == -1 {
+		return errKeyNotFound(path[lenp-1])
+	}
+	if parent.getIndex(newKey) != -1 {
+		return errKeyAlreadyExist(newKey)
 	}
-	curr.label = newKey
-	p.json, _ = SetKey(p.json, newKey, path...)
-	for i := 0; i < lenp-1; i++ {
-		curr = curr.up
-		curr.value, _ = Get(p.json, path[:lenp-1-i]...)
-		if err != nil {
-			return err
-		}
+	json, err := SetKey(p.json, newKey, path...)
+	if err != nil {
+		return err
+	}
+	err = p.refresh(json, parent, path[:lenp-1])
+	if err != nil {
+		return err
 	}
+	parent.down[index].label = newKey
 	return nil
 }
diff --git a/parse_utils.go b/parse_utils.go
index 0bdd206..4b70e89 100755
--- a/parse_utils.go
+++ b/parse_utils.go
@@ -42,6 +42,9 @@ func packValue(value []byte) []byte {
 }
 
 func (n *node) dive(bytes []byte) []byte {
+	if len(n.value) == 0 {
+		return bytes
+	}
 	temp := make([]byte, 0, 32)
 	temp = append(temp, n.value[0])
 	for _, d := range n.down {
@@ -49,10 +52,10 @@ func (n *node) dive(bytes []byte) []byte {
 		if len(d.down) != 0 {
 			val = d.dive(bytes)
 		}
-		if d.up.value[0] == 123 {
+		if n.value[0] == 123 {
 			temp = append(temp, packKeyValue(d.label, val)...)
 		}
-		if d.up.value[0] == 91 {
+		if n.value[0] == 91 {
 			temp = append(temp, packValue(val)...)
 		}
 		temp = append(temp, 44)
@@ -81,30 +84,89 @@ func Parse(json []byte) (*Parser, error) {
 	return &pars, nil
 }
 
-func (n *node) insert(up *node, index int) error {
-	lend := len(up.down)
-	if lend != 0 {
-		if lend-1 < index {
-			return errIndexOutOfRange()
+// valueNode creates the node of a new value and the nodes of the elements under it.
+// Node keeps its own copy of the value.
+func valueNode(label string, value []byte) (*node, error) {
+	value = packValue(value)
+	newNode := createNode(nil)
+	if len(value) >= 2 {
+		if value[0] == 91 || value[0] == 123 {
+			err := pCore(value, newNode)
+			if err != nil {
+				return nil, err
+			}
+			if len(newNode.down) == 0 {
+				return nil, errBadJSON(0)
+			}
+			newNode = newNode.down[0]
 		}
-		for i := index; i < lend; i++ {
-			up.down[i].label = strconv.Itoa(i + 1)
+	}
+	newNode.label = label
+	newNode.value = value
+	return newNode, nil
+}
+
+// refresh takes the edited json and reads the values of the nodes on the path from it.
+// n is the node that path has pointed.
+// Parser does not change if one of them is not readable.
+func (p *Parser) refresh(json []byte, n *node, path []string) error {
+	values := make([][]byte, 0, len(path))
+	for i := len(path); i > 0; i-- {
+		value, err := Get(json, path[:i]...)
+		if err != nil {
+			return err
 		}
-		n.label = strconv.Itoa(index)
-		n.up = up
-		return nil
+		values = append(values, value)
+	}
+	for _, value := range values {
+		if n == nil {
+			break
+		}
+		n.value = value
+		n = n.up
 	}
-	return errIndexOutOfRange()
+	p.core.value = cleanValue(json)
+	p.json = json
+	return nil
 }
 
-func (n *node) deAttach() {
-	newDown := make([]*node, 0, len(n.up.down)-1)
-	for _, d := range n.up.down {
-		if d.label != n.label {
+// attach puts the node under n, before the node at index.
+func (n *node) attach(newNode *node, index int) {
+	newDown := make([]*node, 0, len(n.down)+1)
+	for i, d := range n.down {
+		if i == index {
+			newDown = append(newDown, newNode)
+		}
+		newDown = append(newDown, d)
+	}
+	if index >= len(n.down) {
+		newDown = append(newDown, newNode)
+	}
+	newNode.up = n
+	n.down = newDown
+	n.relabel()
+}
+
+// deAttach removes the node at index from n.
+func (n *node) deAttach(index int) {
+	newDown := make([]*node, 0, len(n.down))
+	for i, d := range n.down {
+		if i != index {
 			newDown = append(newDown, d)
 		}
 	}
-	n.up.down = newDown
+	n.down = newDown
+	n.relabel()
+}
+
+// relabel numbers the elements again if n is an array.
+func (n *node) relabel() {
+	if len(n.value) == 0 || n.value[0] != 91 {
+		return
+	}
+	for i, d := range n.down {
+		d.label = strconv.Itoa(i)
+	}
 }
 
 func (n *node) walk(path []string) (*node, error) {
@@ -122,9 +184,9 @@ func (n *node) walk(path []string) (*node, error) {
 	return n, nil
 }
 
-func (n *node) getIndex() int {
-	for i, v := range n.up.down {
-		if v.label == n.label {
+func (n *node) getIndex(label string) int {
+	for i, d := range n.down {
+		if d.label == label {
 			return i
 		}
 	}
-- 
2.43.0


From f5afa918e8bb0b7dbc60692ae6cf6e5876778970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:11 +0000
Subject: [PATCH 25/31] fix: Parser.SetString writes a string like SetString
 does

---
 parse_set.go | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/parse_set.go b/parse_set.go
index 9abbcaf..765db7f 100755
--- a/parse_set.go
+++ b/parse_set.go
@@ -39,10 +39,7 @@ func (p *Parser) Set(newVal []byte, path ...string) error {
 // SetString is a variation of Set() func.
 // SetString takes the set value as string.
 func (p *Parser) SetString(newValue string, path ...string) error {
-	if newValue[0] != 34 && newValue[len(newValue)-1] != 34 {
-		return p.Set([]byte(`"`+newValue+`"`), path...)
-	}
-	return p.Set([]byte(newValue), path...)
+	return p.Set([]byte(formatType(newValue)), path...)
 }
 
 // SetInt is a variation of Set() func.
-- 
2.43.0


From 198c3d9286f363a47252e714744c8d4b76dbff83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:02 +0000
Subject: [PATCH 26/31] fix: MutateJson returns the error it fails with

---
 make.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/make.go b/make.go
index 802193a..ca29c06 100755
--- a/make.go
+++ b/make.go
@@ -44,7 +44,7 @@ func (s *Scheme) MutateJson(json []byte) ([]byte, error) {
 		newJson, err2 = AddKeyValueString(newJson, k, val)
 		if err == nil {
 			if err2 != nil {
-				return nil, err
+				return nil, err2
 			}
 		}
 	}
-- 
2.43.0


From c6ff4145ddbd2e78acf87a687b6d139dd4d0d828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:27 +0000
Subject: [PATCH 27/31] fix: a Scheme shares no key list with its caller

---
 make.go | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/make.go b/make.go
index ca29c06..e0260e6 100755
--- a/make.go
+++ b/make.go
@@ -18,7 +18,14 @@ type Scheme struct {
 // It needs key(s) for create JSON.
 // More information on Type Scheme example.
 func MakeScheme(keys ...string) *Scheme {
-	return &Scheme{keys: keys, originalKeys: keys}
+	return &Scheme{keys: copyKeys(keys), originalKeys: copyKeys(keys)}
+}
+
+// copyKeys returns a list that shares nothing with the given one.
+func copyKeys(keys []string) []string {
+	newKeys := make([]string, len(keys))
+	copy(newKeys, keys)
+	return newKeys
 }
 
 // MakeJson is main creation method for creating JSON's from Schemes.
@@ -139,25 +146,25 @@ func (s *Scheme) Remove(key string) bool {
 // Save saves current keys for protect them temporary changes.
 // More information on Type Scheme example.
 func (s *Scheme) Save() {
-	s.originalKeys = s.keys
+	s.originalKeys = copyKeys(s.keys)
 }
 
 // Restore Schemes original form.
 // More information on Type Scheme example.
 func (s *Scheme) Restore() {
-	s.keys = s.originalKeys
+	s.keys = copyKeys(s.originalKeys)
 }
 
 // GetOriginalKeys is a simple get function for get Schemes original keys.
 // More information on Type Scheme example.
 func (s *Scheme) GetOriginalKeys() []string {
-	return s.originalKeys
+	return copyKeys(s.originalKeys)
 }
 
 // GetCurrentKeys is a simple get function for get Schemes current keys.
 // More information on Type Scheme example.
 func (s *Scheme) GetCurrentKeys() []string {
-	return s.keys
+	return copyKeys(s.keys)
 }
 
 // MakeEmptyArray simply creates "[]" this as byte slice.
-- 
2.43.0


From 3069209da55732a3731cc02a0476cbac87e75e52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:11 +0000
Subject: [PATCH 28/31] fix: a string is written bare only if it is a JSON
 number

---
 utils.go | 51 ++++++++++++++++++++++++++++++++++++++++++++-------
 1 file changed, 44 insertions(+), 7 deletions(-)

diff --git a/utils.go b/utils.go
index 050d88d..3921967 100755
--- a/utils.go
+++ b/utils.go
@@ -68,13 +68,7 @@ func formatType(val string) string {
 	if isBool(val) {
 		return val
 	}
-	if isInt(val) {
-		if val[0] == 48 && len(val) > 1 {
-			return `"` + val + `"`
-		}
-		return val
-	}
-	if isFloat(val) {
+	if isNumber(val) && (isInt(val) || isFloat(val)) {
 		return val
 	}
 	if val == "null" {
@@ -97,6 +91,49 @@ func formatType(val string) string {
 	return `"` + val + `"`
 }
 
+// isNumber tells whether val is written like a JSON number
+func isNumber(val string) bool {
+	i := 0
+	if i < len(val) && val[i] == '-' {
+		i++
+	}
+	start := i
+	for i < len(val) && digit(val[i]) {
+		i++
+	}
+	if i == start || (val[start] == '0' && i-start > 1) {
+		return false
+	}
+	if i < len(val) && val[i] == '.' {
+		i++
+		start = i
+		for i < len(val) && digit(val[i]) {
+			i++
+		}
+		if i == start {
+			return false
+		}
+	}
+	if i < len(val) && (val[i] == 'e' || val[i] == 'E') {
+		i++
+		if i < len(val) && (val[i] == '+' || val[i] == '-') {
+			i++
+		}
+		start = i
+		for i < len(val) && digit(val[i]) {
+			i++
+		}
+		if i == start {
+			return false
+		}
+	}
+	return i == len(val)
+}
+
+func digit(curr byte) bool {
+	return curr >= '0' && curr <= '9'
+}
+
 func isBool(val string) bool {
 	return val == "true" || val == "false"
 }
-- 
2.43.0


From 2ba706ac4f1762a5fb1bc45b81770e5e96fc9d2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:46 +0000
Subject: [PATCH 29/31] fix: report index 0 of an empty array as missing when
 only its start is asked for

---
 inter_core.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/inter_core.go b/inter_core.go
index 30bc1e0..f21927f 100755
--- a/inter_core.go
+++ b/inter_core.go
@@ -77,6 +77,10 @@ func core(json []byte, justStart bool, path ...string) (int, int, int, error) {
 							if k != len(path)-1 {
 								return -1, -1, -1, errIndexOutOfRange()
 							}
+							// array has no element
+							if curr == 93 {
+								return -1, -1, -1, errEmptyArray()
+							}
 							break
 						}
 					}
-- 
2.43.0


From 4ab97d392481547624179e32a8a945db44a6457f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:22 +0000
Subject: [PATCH 30/31] fix: AddKeyValue and Add reject a string that looks
 like a container

---
 inter_add.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/inter_add.go b/inter_add.go
index 73ea34b..b6850d0 100755
--- a/inter_add.go
+++ b/inter_add.go
@@ -47,6 +47,10 @@ func AddKeyValue(json []byte, key string, value []byte, path ...string) ([]byte,
 		if err != nil {
 			return json, err
 		}
+		if start > 0 && json[start-1] == 34 {
+			// a string that looks like an object
+			return json, errObjectExpected()
+		}
 	}
 	if json[start] == 123 && json[end-1] == 125 {
 		empty := true
@@ -117,6 +121,10 @@ func Add(json []byte, value []byte, path ...string) ([]byte, error) {
 		if err != nil {
 			return json, err
 		}
+		if start > 0 && json[start-1] == 34 {
+			// a string that looks like an array
+			return json, errArrayExpected()
+		}
 	}
 	if json[start] == 91 && json[end-1] == 93 {
 		empty := true
-- 
2.43.0


From 19e07c1dd976b48427f59894a30d28bd1e0882b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:42 +0000
Subject: [PATCH 31/31] fix: GetType knows a value between spaces and a number
 of any size

---
 inter_type.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/inter_type.go b/inter_type.go
index e3e498d..c230da5 100755
--- a/inter_type.go
+++ b/inter_type.go
@@ -63,12 +63,17 @@ func GetType(json []byte, path ...string) (string, error) {
 	if err != nil {
 		return "", err
 	}
+	val = cleanValueString(val)
 	switch val {
 	case "true", "false":
 		return TypeBoolean, nil
 	case "null":
 		return TypeNull, nil
 	}
+	if isNumber(val) {
+		// whatever its size
+		return TypeNumber, nil
+	}
 	_, err = strconv.ParseInt(val, 10, 64)
 	if err == nil {
 		return TypeNumber, nil
-- 
2.43.0

