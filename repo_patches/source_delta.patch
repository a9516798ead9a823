From e38bfb11883f147e4cc7e82f0f2a07db054101f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:21 +0000
Subject: [PATCH 01/29] fix: Parse keeps non-ASCII UTF-8 text intact instead of
 re-encoding it byte by byte

---
 json/JSON.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/json/JSON.go b/json/JSON.go
index 475ee08..aab923a 100644
--- a/json/JSON.go
+++ b/json/JSON.go
@@ -161,9 +161,9 @@ func parseJSONMap(json_string string, index *uint64, mode *string, metrics *Map)
 		i := *index
 		previous_value := ""
 		if *index > 0 {
-			previous_value = string(json_string[i-1])
+			previous_value = json_string[i-1 : i]
 		}
-		value := string(json_string[i])
+		value := json_string[i : i+1]
 		rune_values := []rune(value)
 		rune_value := rune_values[0]
 
-- 
2.43.0


From d63605469d7b6d112dbbfcda67273bf7a14abc26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:51 +0000
Subject: [PATCH 02/29] fix: Parse returns an error for unbalanced, crossed or
 trailing brackets instead of panicking or accepting them

---
 json/JSON.go | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/json/JSON.go b/json/JSON.go
index aab923a..7bd834a 100644
--- a/json/JSON.go
+++ b/json/JSON.go
@@ -167,6 +167,11 @@ func parseJSONMap(json_string string, index *uint64, mode *string, metrics *Map)
 		rune_values := []rune(value)
 		rune_value := rune_values[0]
 
+		if parent_map != nil && len(*list) == 0 {
+			errors = append(errors, fmt.Errorf("error: found content after the end of the json at index: %d", i))
+			return nil, errors
+		}
+
 		if !parsing_string {
 			if value == "\"" && previous_value != "\\" {
 				parsing_string = true
@@ -337,6 +342,11 @@ func parseJSONMap(json_string string, index *uint64, mode *string, metrics *Map)
 				*index++
 				continue
 			} else if value == "}" {
+				if !((*list)[len(*list)-1]).IsMap() {
+					errors = append(errors, fmt.Errorf("error: found } but the enclosing value is not a map at index: %d", i))
+					return nil, errors
+				}
+
 				parse_errors := parseJSONValue(temp_key_r, temp_value_r, list)
 				if parse_errors != nil {
 					errors = append(errors, parse_errors...)
@@ -392,6 +402,11 @@ func parseJSONMap(json_string string, index *uint64, mode *string, metrics *Map)
 				*index++
 				continue
 			} else if value == "]" {
+				if !((*list)[len(*list)-1]).IsArray() {
+					errors = append(errors, fmt.Errorf("error: found ] but the enclosing value is not an array at index: %d", i))
+					return nil, errors
+				}
+
 				parse_errors := parseJSONValue(temp_key_r, temp_value_r, list)
 
 				if parse_errors != nil {
@@ -439,6 +454,10 @@ func parseJSONMap(json_string string, index *uint64, mode *string, metrics *Map)
 		*index++
 	}
 
+	if len(*list) != 0 {
+		errors = append(errors, fmt.Errorf("error: json ended before all maps and arrays were closed"))
+	}
+
 	if len(errors) > 0 {
 		return nil, errors
 	}
-- 
2.43.0


From 6af692f5bcd3f962b10ee72f5a03fee69e10290b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:07 +0000
Subject: [PATCH 03/29] fix: Parse decodes JSON escapes in strings and keys,
 including keys of nested values and strings ending in a backslash

---
 json/JSON.go | 81 ++++++++++++++++++++++++++++++++++++++++++++++++----
 1 file changed, 75 insertions(+), 6 deletions(-)

diff --git a/json/JSON.go b/json/JSON.go
index 7bd834a..8c462ad 100644
--- a/json/JSON.go
+++ b/json/JSON.go
@@ -7,6 +7,8 @@ import (
 	"strconv"
 	"strings"
 	"time"
+	"unicode/utf16"
+	"unicode/utf8"
 
 	common "github.com/matehaxor03/holistic_common/common"
 )
@@ -127,7 +129,7 @@ func Parse(s string) (*Map, []error) {
 func unquote_key_value(key string) (string, []error) {
 	var errors []error
 	if strings.HasPrefix(key, "\"") && strings.HasSuffix(key, "\"") {
-		key = (key)[1:(len(key) - 1)]
+		key = unescapeJSONString((key)[1:(len(key) - 1)])
 	} else {
 		errors = append(errors, fmt.Errorf("error: key does not start with  \" or end with \""))
 	}
@@ -139,6 +141,69 @@ func unquote_key_value(key string) (string, []error) {
 	return key, nil
 }
 
+func unescapeJSONString(value string) string {
+	if !strings.Contains(value, "\\") {
+		return value
+	}
+
+	var result strings.Builder
+	for i := 0; i < len(value); i++ {
+		if value[i] != '\\' || i == len(value)-1 {
+			result.WriteByte(value[i])
+			continue
+		}
+
+		i++
+		switch value[i] {
+		case '"', '\\', '/':
+			result.WriteByte(value[i])
+		case 'b':
+			result.WriteByte('\b')
+		case 'f':
+			result.WriteByte('\f')
+		case 'n':
+			result.WriteByte('\n')
+		case 'r':
+			result.WriteByte('\r')
+		case 't':
+			result.WriteByte('\t')
+		case 'u':
+			unicode_value, found := parseUnicodeEscape(value[i-1:])
+			if !found {
+				result.WriteString("\\u")
+				continue
+			}
+			i += 4
+			if utf16.IsSurrogate(unicode_value) {
+				low_surrogate, _ := parseUnicodeEscape(value[i+1:])
+				unicode_value = utf16.DecodeRune(unicode_value, low_surrogate)
+				if unicode_value != utf8.RuneError {
+					i += 6
+				}
+			}
+			result.WriteRune(unicode_value)
+		default:
+			result.WriteByte('\\')
+			result.WriteByte(value[i])
+		}
+	}
+
+	return result.String()
+}
+
+func parseUnicodeEscape(value string) (rune, bool) {
+	if len(value) < 6 || !strings.HasPrefix(value, "\\u") {
+		return 0, false
+	}
+
+	code, code_error := strconv.ParseUint(value[2:6], 16, 16)
+	if code_error != nil {
+		return 0, false
+	}
+
+	return rune(code), true
+}
+
 func parseJSONMap(json_string string, index *uint64, mode *string, metrics *Map) (*Map, []error) {
 	var errors []error
 	array_list := [](*Value){}
@@ -153,6 +218,7 @@ func parseJSONMap(json_string string, index *uint64, mode *string, metrics *Map)
 	var temp_key_r string
 	var temp_value_r string
 	parsing_string := false
+	next_value_is_escaped := false
 	temp_mode := cloneString(mode)
 	current_mode := *temp_mode
 	var parent_map *Map = nil
@@ -164,6 +230,12 @@ func parseJSONMap(json_string string, index *uint64, mode *string, metrics *Map)
 			previous_value = json_string[i-1 : i]
 		}
 		value := json_string[i : i+1]
+		if parsing_string {
+			if !next_value_is_escaped {
+				previous_value = ""
+			}
+			next_value_is_escaped = !next_value_is_escaped && value == "\\"
+		}
 		rune_values := []rune(value)
 		rune_value := rune_values[0]
 
@@ -483,13 +555,10 @@ func parseJSONValue(key_value string, string_value string, list *([](*Value))) [
 	key_value = strings.TrimSpace(key_value)
 	string_value = strings.TrimSpace(string_value)
 
-	key_value = strings.Replace(key_value, "\\\"", "\"", -1)
-	string_value = strings.Replace(string_value, "\\\"", "\"", -1)
-
 	if ((*list)[len(*list)-1]).IsMap() {
 		if strings.HasPrefix(key_value, "\"") && strings.HasSuffix(key_value, "\"") {
 			dequoted_value := (key_value)[1:(len(key_value) - 1)]
-			key_value = dequoted_value
+			key_value = unescapeJSONString(dequoted_value)
 		} else {
 			errors = append(errors, fmt.Errorf("error: key does not start with  \" and/or end with \" key: '%s'", key_value))
 		}
@@ -499,7 +568,7 @@ func parseJSONValue(key_value string, string_value string, list *([](*Value))) [
 		if strings.HasPrefix(string_value, "\"") && strings.HasSuffix(string_value, "\"") {
 			data_type = "string"
 			dequoted_value := (string_value)[1:(len(string_value) - 1)]
-			string_value = dequoted_value
+			string_value = unescapeJSONString(dequoted_value)
 		} else {
 			errors = append(errors, fmt.Errorf("error: value does not start with  \" and/or end with \" value: '%s'", string_value))
 		}
-- 
2.43.0


From 9b069a4893c818f3a6e0cf0925136f12c1114ac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:19 +0000
Subject: [PATCH 04/29] fix: ToJSONString escapes backslashes and control
 characters and leaves backticks in keys alone, so its output is valid JSON

---
 json/JSON.go | 49 +++++++++++++++++++++++++++++++++++++++----------
 json/Map.go  |  8 +-------
 2 files changed, 40 insertions(+), 17 deletions(-)

diff --git a/json/JSON.go b/json/JSON.go
index 8c462ad..7f2ac4e 100644
--- a/json/JSON.go
+++ b/json/JSON.go
@@ -141,6 +141,35 @@ func unquote_key_value(key string) (string, []error) {
 	return key, nil
 }
 
+func escapeJSONString(value string) string {
+	var result strings.Builder
+	for i := 0; i < len(value); i++ {
+		switch value[i] {
+		case '"', '\\':
+			result.WriteByte('\\')
+			result.WriteByte(value[i])
+		case '\b':
+			result.WriteString("\\b")
+		case '\f':
+			result.WriteString("\\f")
+		case '\n':
+			result.WriteString("\\n")
+		case '\r':
+			result.WriteString("\\r")
+		case '\t':
+			result.WriteString("\\t")
+		default:
+			if value[i] < 0x20 {
+				result.WriteString(fmt.Sprintf("\\u%04x", value[i]))
+			} else {
+				result.WriteByte(value[i])
+			}
+		}
+	}
+
+	return result.String()
+}
+
 func unescapeJSONString(value string) string {
 	if !strings.Contains(value, "\\") {
 		return value
@@ -882,40 +911,40 @@ func ConvertInterfaceValueToJSONStringValue(json *strings.Builder, value interfa
 		temp_string := temp_value.(string)
 		clone_string := common.CloneString(&temp_string)
 		json.WriteString("\"")
-		json.WriteString(strings.ReplaceAll(*clone_string, "\"", "\\\""))
+		json.WriteString(escapeJSONString(*clone_string))
 		json.WriteString("\"")
 	case "*string":
 		clone_string := common.CloneString(temp_value.(*string))
 		json.WriteString("\"")
-		json.WriteString(strings.ReplaceAll(*clone_string, "\"", "\\\""))
+		json.WriteString(escapeJSONString(*clone_string))
 		json.WriteString("\"")
 	case "error":
 		json.WriteString("\"")
-		json.WriteString(strings.ReplaceAll(fmt.Sprintf("%s", temp_value.(error)), "\"", "\\\""))
+		json.WriteString(escapeJSONString(fmt.Sprintf("%s", temp_value.(error))))
 		json.WriteString("\"")
 	case "*error":
 		json.WriteString("\"")
-		json.WriteString(strings.ReplaceAll(fmt.Sprintf("%s", *(temp_value.(*error))), "\"", "\\\""))
+		json.WriteString(escapeJSONString(fmt.Sprintf("%s", *(temp_value.(*error)))))
 		json.WriteString("\"")
 	case "*url.Error":
 		json.WriteString("\"")
-		json.WriteString(strings.ReplaceAll(fmt.Sprintf("%s", (*(temp_value.(*url.Error))).Error()), "\"", "\\\""))
+		json.WriteString(escapeJSONString(fmt.Sprintf("%s", (*(temp_value.(*url.Error))).Error())))
 		json.WriteString("\"")
 	case "exec.ExitError":
 		json.WriteString("\"")
-		json.WriteString(strings.ReplaceAll(fmt.Sprintf("%s", temp_value), "\"", "\\\""))
+		json.WriteString(escapeJSONString(fmt.Sprintf("%s", temp_value)))
 		json.WriteString("\"")
 	case "*exec.ExitError":
 		json.WriteString("\"")
-		json.WriteString(strings.ReplaceAll(fmt.Sprintf("%s", temp_value), "\"", "\\\""))
+		json.WriteString(escapeJSONString(fmt.Sprintf("%s", temp_value)))
 		json.WriteString("\"")
 	case "errors.errorString":
 		json.WriteString("\"")
-		json.WriteString(strings.ReplaceAll(fmt.Sprintf("%s", temp_value), "\"", "\\\""))
+		json.WriteString(escapeJSONString(fmt.Sprintf("%s", temp_value)))
 		json.WriteString("\"")
 	case "*errors.errorString":
 		json.WriteString("\"")
-		json.WriteString(strings.ReplaceAll(fmt.Sprintf("%s", temp_value), "\"", "\\\""))
+		json.WriteString(escapeJSONString(fmt.Sprintf("%s", temp_value)))
 		json.WriteString("\"")
 	case "bool":
 		if temp_value.(bool) {
@@ -1007,7 +1036,7 @@ func ConvertInterfaceValueToJSONStringValue(json *strings.Builder, value interfa
 		json.WriteString("]")
 	case "func(string, *string, string, string) []error", "func(json.Map) []error", "*func(json.Map) []error", "*func(string) []error", "func(string) []error":
 		json.WriteString("\"")
-		json.WriteString(strings.ReplaceAll(fmt.Sprintf("%s", rep), "\"", "\\\""))
+		json.WriteString(escapeJSONString(fmt.Sprintf("%s", rep)))
 		json.WriteString("\"")
 	case "*time.Time":
 		json.WriteString("\"")
diff --git a/json/Map.go b/json/Map.go
index 30e06f5..cb51f86 100644
--- a/json/Map.go
+++ b/json/Map.go
@@ -331,14 +331,8 @@ func NewMapOfValues(m *map[string]interface{}) *Map {
 		json.WriteString("{")
 		for i := 0; i < length; i++ {
 			key := (temp_keys)[i]
-			key_clone := common.CloneString(&key)
-			escaped_key, escaped_key_error := common.EscapeString(*key_clone, "\"")
-			if escaped_key_error != nil {
-				errors = append(errors, escaped_key_error)
-				return errors
-			}
 			json.WriteString("\"")
-			json.WriteString(escaped_key)
+			json.WriteString(escapeJSONString(key))
 			json.WriteString("\":")
 			string_conversion_errors := ConvertInterfaceValueToJSONStringValue(json, internal_map[key])
 			if string_conversion_errors != nil {
-- 
2.43.0


From b69d86819a25ce208ea31e1f561a3f2fd98be140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:21 +0000
Subject: [PATCH 05/29] fix: Value.GetString returns an error for a value that
 is not a string instead of panicking

---
 json/Value.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/json/Value.go b/json/Value.go
index 819b5e0..1f262ab 100644
--- a/json/Value.go
+++ b/json/Value.go
@@ -564,7 +564,6 @@ func NewValue(v interface{}) (*Value) {
 			case "*string":
 				result = this().GetObject().(*string)
 			default:
-				panic("debug")
 				errors = append(errors, fmt.Errorf("error Value.GetString: type %s is not supported please implement for attribute", rep))
 			}
 		
-- 
2.43.0


From 536a8a81dfa181502703d1c2e57e9db8f2bdb3b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:31 +0000
Subject: [PATCH 06/29] fix: Value.IsNil no longer reports stored times, errors
 and functions as nil, so their getters return them

---
 json/Value.go | 12 +-----------
 1 file changed, 1 insertion(+), 11 deletions(-)

diff --git a/json/Value.go b/json/Value.go
index 1f262ab..77811b3 100644
--- a/json/Value.go
+++ b/json/Value.go
@@ -649,17 +649,7 @@ func NewValue(v interface{}) (*Value) {
 		},
 		IsNil: func() bool {
 			temp_value := this().GetObject()
-			if common.IsNil(temp_value) {
-				return true
-			}
-			
-			return !(common.IsValue(temp_value) ||
-					common.IsNumber(temp_value) || 
-					common.IsBool(temp_value) || 
-					common.IsString(temp_value) || 
-					common.IsArray(temp_value) || 
-					common.IsMap(temp_value) ||
-					common.IsFunc(temp_value))
+			return common.IsNil(temp_value)
 		},
 		IsBool: func() bool {
 			return common.IsBool(this().GetObject())
-- 
2.43.0


From f5cc55bc5eb301810515b2081e6b9637b78a6e47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:43 +0000
Subject: [PATCH 07/29] fix: Map.IsNil is false for an existing map instead of
 always true

---
 json/Map.go | 12 +-----------
 1 file changed, 1 insertion(+), 11 deletions(-)

diff --git a/json/Map.go b/json/Map.go
index cb51f86..b7d8f2c 100644
--- a/json/Map.go
+++ b/json/Map.go
@@ -449,17 +449,7 @@ func NewMapOfValues(m *map[string]interface{}) *Map {
 			return isValueNilForMap(s)
 		},
 		IsNil: func() bool {			
-			if common.IsNil(internal_map) {
-				return true
-			}
-	
-			return !(common.IsValue(internal_map) ||
-					common.IsNumber(internal_map) || 
-					common.IsBool(internal_map) || 
-					common.IsString(internal_map) || 
-					common.IsArray(internal_map) || 
-					common.IsMap(internal_map) ||
-					common.IsFunc(internal_map))
+			return internal_map == nil
 		},
 		IsBool: func(s string) bool {
 			if isValueNilForMap(s) {
-- 
2.43.0


From 905b19b18aa9591a8789b9cbab1f0c36efd41e9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:02 +0000
Subject: [PATCH 08/29] fix: Array.AppendStringValue keeps strings such as
 "nil" and "map[]" instead of turning them into null

---
 json/Array.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/json/Array.go b/json/Array.go
index c542672..3b4c771 100644
--- a/json/Array.go
+++ b/json/Array.go
@@ -251,7 +251,7 @@ func NewArrayOfValues(a *[]interface{}) (*Array) {
 		},
 		AppendStringValue: func(value string) {
 			a := getValues()
-			appended_value := NewValue(value)
+			appended_value := NewValue(&value)
 			*a = append(*a, appended_value)
 		},
 		AppendUInt: func(value *uint) {
@@ -440,8 +440,6 @@ func NewArrayOfValues(a *[]interface{}) (*Array) {
 			value, value_errors := ((*a)[index]).GetStringValue()
 			if value_errors != nil {
 				errors = append(errors, fmt.Errorf("Array.GetStringValue has errors: %s", fmt.Sprintf("%s", value_errors)))
-			} else if common.IsNil(value) {
-				errors = append(errors, fmt.Errorf("Array.GetStringValue value is nil"))
 			}
 		
 			if len(errors) > 0 {
-- 
2.43.0


From 40d4645fe9413df19f6886b9d2bd7647534f85e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:20 +0000
Subject: [PATCH 09/29] fix: Value.SetStringValue and IsValueEqualToStringValue
 no longer confuse the text "nil" with a nil value

---
 json/Value.go | 11 ++---------
 1 file changed, 2 insertions(+), 9 deletions(-)

diff --git a/json/Value.go b/json/Value.go
index 77811b3..f3c8eef 100644
--- a/json/Value.go
+++ b/json/Value.go
@@ -577,7 +577,7 @@ func NewValue(v interface{}) (*Value) {
 			setObject(value)
 		},
 		SetStringValue: func(value string) {
-			setObject(value)
+			setObject(&value)
 		},
 		GetStringValue: func() (string, []error) {
 			var errors []error
@@ -629,14 +629,7 @@ func NewValue(v interface{}) (*Value) {
 			return value == *s			
 		},
 		IsValueEqualToStringValue: func(s string) (bool) {
-			this_nil := this().IsNil()
-			compare_nil := common.IsNil(s)
-			
-			if this_nil && compare_nil {
-				return true
-			}
-			
-			if this_nil != compare_nil {
+			if this().IsNil() {
 				return false
 			}
 
-- 
2.43.0


From 20baeb7b875bb6f79ad280aaf579fb7ad349c1ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:22 +0000
Subject: [PATCH 10/29] fix: Array.Clone, GetStringValue and GetMap cope with
 nil elements instead of panicking

---
 json/Array.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/json/Array.go b/json/Array.go
index 3b4c771..efe27a8 100644
--- a/json/Array.go
+++ b/json/Array.go
@@ -123,7 +123,9 @@ func NewArrayOfValues(a *[]interface{}) (*Array) {
 		temp_values := getValues()
 		cloned := NewArray()
 		for _, temp_value := range *temp_values {
-			if temp_value.IsMap() {
+			if temp_value == nil {
+				cloned.AppendNil()
+			} else if temp_value.IsMap() {
 				temp_map, temp_map_errors := temp_value.GetMap()
 				if temp_map_errors != nil {
 					errors = append(errors, temp_map_errors...)
@@ -437,6 +439,11 @@ func NewArrayOfValues(a *[]interface{}) (*Array) {
 				return "", errors
 			}
 		
+			if (*a)[index] == nil {
+				errors = append(errors, fmt.Errorf("Array.GetStringValue value is nil"))
+				return "", errors
+			}
+
 			value, value_errors := ((*a)[index]).GetStringValue()
 			if value_errors != nil {
 				errors = append(errors, fmt.Errorf("Array.GetStringValue has errors: %s", fmt.Sprintf("%s", value_errors)))
@@ -461,6 +468,11 @@ func NewArrayOfValues(a *[]interface{}) (*Array) {
 				return nil, errors
 			}
 		
+			if (*a)[index] == nil {
+				errors = append(errors, fmt.Errorf("Array.GetMap value is nil"))
+				return nil, errors
+			}
+
 			value, value_errors := ((*a)[index]).GetMap()
 			if value_errors != nil {
 				errors = append(errors, fmt.Errorf("Array.GetStringValue has errors: %s", fmt.Sprintf("%s", value_errors)))
-- 
2.43.0


From 065b31214890f6eaf3a0ef7eca90b85dfff68aeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:24 +0000
Subject: [PATCH 11/29] fix: Value.GetInt64 returns an error for uint values
 above the int64 range instead of wrapping negative

---
 json/Value.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/json/Value.go b/json/Value.go
index f3c8eef..434b97e 100644
--- a/json/Value.go
+++ b/json/Value.go
@@ -1106,10 +1106,18 @@ func NewValue(v interface{}) (*Value) {
 					temp_value = int64(x)
 				case "*uint":
 					x := this().GetObject().(*uint)
-					temp_value = int64(*x)
+					if uint64(*x) > 9223372036854775807 {
+						errors = append(errors, fmt.Errorf("%d is greater than 9223372036854775807", *x))
+					} else {
+						temp_value = int64(*x)
+					}
 				case "uint":
 					x := this().GetObject().(uint)
-					temp_value = int64(x)
+					if uint64(x) > 9223372036854775807 {
+						errors = append(errors, fmt.Errorf("%d is greater than 9223372036854775807", x))
+					} else {
+						temp_value = int64(x)
+					}
 				case "*string":
 					value, value_error := strconv.ParseInt(*(this().GetObject().(*string)), 10, 64)
 					if value_error != nil {
-- 
2.43.0


From 52e12dc9f28eca03474f9be2a99cfcee68e4636a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:25 +0000
Subject: [PATCH 12/29] fix: Value.Clone keeps error messages that contain a
 percent sign intact

---
 json/Value.go | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/json/Value.go b/json/Value.go
index 434b97e..a60199b 100644
--- a/json/Value.go
+++ b/json/Value.go
@@ -202,38 +202,38 @@ func NewValue(v interface{}) (*Value) {
 					cloned_value.SetString(&result)
 				case "error":
 					result := fmt.Sprintf("%s",  temp_object.(error).Error())
-					cloned_value.SetErrorValue(fmt.Errorf(result))
+					cloned_value.SetErrorValue(fmt.Errorf("%s", result))
 				case "[]error": 
 					result := temp_object.([]error)
 					var result_array []error
 					for _, result_array_value := range result {
-						e := fmt.Errorf(fmt.Sprintf("%s", result_array_value.Error()))
+						e := fmt.Errorf("%s", result_array_value.Error())
 						result_array = append(result_array, e)
 					}	
 					cloned_value.SetErrorsValue(result_array)				
 				case "*error":
 					result := fmt.Sprintf("%s", (*(temp_object.(*error))).Error())
-					cloned_error := fmt.Errorf(result)
+					cloned_error := fmt.Errorf("%s", result)
 					cloned_value.SetError(&cloned_error)
 				case "*url.Error":
 					result := fmt.Sprintf("%s", (*(temp_object.(*url.Error))).Error()) 
-					cloned_error := fmt.Errorf(result)
+					cloned_error := fmt.Errorf("%s", result)
 					cloned_value.SetError(&cloned_error)
 				case "exec.ExitError":
 					result := fmt.Sprintf("%s", temp_object.(exec.ExitError))
-					cloned_error := fmt.Errorf(result)
+					cloned_error := fmt.Errorf("%s", result)
 					cloned_value.SetErrorValue(cloned_error)
 				case "*exec.ExitError":
 					result := fmt.Sprintf("%s", *(temp_object.(*exec.ExitError)))
-					cloned_error := fmt.Errorf(result)
+					cloned_error := fmt.Errorf("%s", result)
 					cloned_value.SetError(&cloned_error)
 				case "errors.errorString":
 					result := fmt.Sprintf("%s", temp_object)
-					cloned_error := fmt.Errorf(result)
+					cloned_error := fmt.Errorf("%s", result)
 					cloned_value.SetErrorValue(cloned_error)
 				case "*errors.errorString":
 					result := fmt.Sprintf("%s", temp_object)
-					cloned_error := fmt.Errorf(result)
+					cloned_error := fmt.Errorf("%s", result)
 					cloned_value.SetError(&cloned_error)
 				case "bool":
 					if temp_object.(bool) {
-- 
2.43.0


From 610dd8694ddf8c58274752c3b05f6cf256473eed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:28 +0000
Subject: [PATCH 13/29] fix: time.Time stored by value is serialised like
 *time.Time instead of failing

---
 json/JSON.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/json/JSON.go b/json/JSON.go
index 7f2ac4e..cadcae6 100644
--- a/json/JSON.go
+++ b/json/JSON.go
@@ -1042,6 +1042,10 @@ func ConvertInterfaceValueToJSONStringValue(json *strings.Builder, value interfa
 		json.WriteString("\"")
 		json.WriteString((*(temp_value.(*time.Time))).Format("2006-01-02 15:04:05.000000"))
 		json.WriteString("\"")
+	case "time.Time":
+		json.WriteString("\"")
+		json.WriteString((temp_value.(time.Time)).Format("2006-01-02 15:04:05.000000"))
+		json.WriteString("\"")
 	case "map[string]map[string][][]string":
 		json.WriteString("\"map[string]map[string][][]string\"")
 	case "*uint64":
@@ -1157,6 +1161,8 @@ func ConvertInterfaceValueToStringValue(value interface{}) (string, []error) {
 		}
 	case "*time.Time":
 		result = (*(temp_value.(*time.Time))).Format("2006-01-02 15:04:05.000000")
+	case "time.Time":
+		result = (temp_value.(time.Time)).Format("2006-01-02 15:04:05.000000")
 	case "map[string]map[string][][]string":
 		result = "map[string]map[string][][]string"
 	case "*uint64":
-- 
2.43.0


From 18641532130f564aad11984f5aee9d1c3e8ecb1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:30 +0000
Subject: [PATCH 14/29] fix: Value time getters return errors for text that is
 not a time and for null instead of panicking or inventing a zero time

---
 json/Value.go | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/json/Value.go b/json/Value.go
index a60199b..1bbddbc 100644
--- a/json/Value.go
+++ b/json/Value.go
@@ -152,6 +152,15 @@ func NewValue(v interface{}) (*Value) {
 		internal_value = value
 	}
 
+	// common.GetTime and common.GetTimeWithDecimalPlaces panic for a string
+	// that is not a time, they only report an error for a *string
+	getObjectForTime := func() interface{} {
+		if string_value, is_string := getObject().(string); is_string {
+			return &string_value
+		}
+		return getObject()
+	}
+
 	clone := func() (*Value, []error) {
 		var errors []error
 		temp_value := this()
@@ -1349,20 +1358,21 @@ func NewValue(v interface{}) (*Value) {
 				return nil, nil
 			}
 		
-			return common.GetTimeWithDecimalPlaces(this().GetObject(), decimal_places)
+			return common.GetTimeWithDecimalPlaces(getObjectForTime(), decimal_places)
 		},
 		GetTime: func() (*time.Time, []error) {
 			if this().IsNil() {
 				return nil, nil
 			}
 		
-			return common.GetTime(this().GetObject())
+			return common.GetTime(getObjectForTime())
 		},
 		GetTimeValue: func() (time.Time, []error) {
-			temp_time, temp_time_errors := common.GetTime(this().GetObject())
+			temp_time, temp_time_errors := this().GetTime()
 			if temp_time_errors != nil {
 				return (*common.GetTimeZero()), temp_time_errors
 			} else if common.IsNil(temp_time) {
+				temp_time_errors = append(temp_time_errors, fmt.Errorf("Value.GetTimeValue time is nil"))
 				return (*common.GetTimeZero()), temp_time_errors
 			}
 			return *temp_time, nil
-- 
2.43.0


From 2bbbc6327b7b9838f437c1e49e5c19d9a6c578c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:32 +0000
Subject: [PATCH 15/29] fix: Map.GetKeys returns a copy so that removing keys
 while ranging over it does not skip or repeat keys

---
 json/Map.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/json/Map.go b/json/Map.go
index b7d8f2c..e9058c2 100644
--- a/json/Map.go
+++ b/json/Map.go
@@ -557,7 +557,7 @@ func NewMapOfValues(m *map[string]interface{}) *Map {
 			return toJSONString(json_payload_builder)
 		},
 		GetKeys: func() ([]string) {
-			return getKeys()
+			return append([]string{}, getKeys()...)
 		},
 		SetArray: func(s string, array *Array) {
 			set_map_value := NewValue(array)
-- 
2.43.0


From 022b1341c03d2da44319d7b49b3d8c290ffbe38c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:01 +0000
Subject: [PATCH 16/29] fix: floats are serialised with enough digits to read
 back the same value, and NaN and Inf are reported as errors

---
 json/JSON.go | 35 +++++++++++++++++++++++++++--------
 1 file changed, 27 insertions(+), 8 deletions(-)

diff --git a/json/JSON.go b/json/JSON.go
index cadcae6..749cf4c 100644
--- a/json/JSON.go
+++ b/json/JSON.go
@@ -2,6 +2,7 @@ package json
 
 import (
 	"fmt"
+	"math"
 	"net/url"
 	"os/exec"
 	"strconv"
@@ -141,6 +142,24 @@ func unquote_key_value(key string) (string, []error) {
 	return key, nil
 }
 
+func formatFloat(value float64, bit_size int) string {
+	result := strconv.FormatFloat(value, 'f', 6, bit_size)
+	parsed_value, parsed_value_error := strconv.ParseFloat(result, bit_size)
+	if parsed_value_error == nil && parsed_value != value && !math.IsNaN(value) {
+		result = strconv.FormatFloat(value, 'f', -1, bit_size)
+	}
+	return result
+}
+
+func writeJSONFloat(json *strings.Builder, value float64, bit_size int) []error {
+	if math.IsNaN(value) || math.IsInf(value, 0) {
+		return []error{fmt.Errorf("error: %f cannot be represented in json", value)}
+	}
+
+	json.WriteString(formatFloat(value, bit_size))
+	return nil
+}
+
 func escapeJSONString(value string) string {
 	var result strings.Builder
 	for i := 0; i < len(value); i++ {
@@ -1089,13 +1108,13 @@ func ConvertInterfaceValueToJSONStringValue(json *strings.Builder, value interfa
 	case "int":
 		json.WriteString(strconv.FormatInt(int64(temp_value.(int)), 10))
 	case "*float64":
-		json.WriteString(fmt.Sprintf("%f", *(temp_value.(*float64))))
+		errors = append(errors, writeJSONFloat(json, *(temp_value.(*float64)), 64)...)
 	case "float64":
-		json.WriteString(fmt.Sprintf("%f", (temp_value.(float64))))
+		errors = append(errors, writeJSONFloat(json, (temp_value.(float64)), 64)...)
 	case "*float32":
-		json.WriteString(fmt.Sprintf("%f", *(temp_value.(*float32))))
+		errors = append(errors, writeJSONFloat(json, float64(*(temp_value.(*float32))), 32)...)
 	case "float32":
-		json.WriteString(fmt.Sprintf("%f", (temp_value.(float32))))
+		errors = append(errors, writeJSONFloat(json, float64((temp_value.(float32))), 32)...)
 	case "nil":
 		json.WriteString("null")
 	default:
@@ -1206,13 +1225,13 @@ func ConvertInterfaceValueToStringValue(value interface{}) (string, []error) {
 	case "int":
 		result = strconv.FormatInt(int64(temp_value.(int)), 10)
 	case "*float64":
-		result = fmt.Sprintf("%f", *(temp_value.(*float64)))
+		result = formatFloat(*(temp_value.(*float64)), 64)
 	case "float64":
-		result = fmt.Sprintf("%f", (temp_value.(float64)))
+		result = formatFloat((temp_value.(float64)), 64)
 	case "*float32":
-		result = fmt.Sprintf("%f", *(temp_value.(*float32)))
+		result = formatFloat(float64(*(temp_value.(*float32))), 32)
 	case "float32":
-		result = fmt.Sprintf("%f", (temp_value.(float32)))
+		result = formatFloat(float64((temp_value.(float32))), 32)
 	case "json.Value":
 		result = fmt.Sprintf("%s", (temp_value.(Value)).GetObject())
 	case "*json.Value":
-- 
2.43.0


From 75fe375e4ad507f617f9e25ccabf93159b0815a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:17 +0000
Subject: [PATCH 17/29] fix: Parse keeps a decimal as float64 when float32
 cannot reproduce it

---
 json/JSON.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/json/JSON.go b/json/JSON.go
index 749cf4c..3128c50 100644
--- a/json/JSON.go
+++ b/json/JSON.go
@@ -695,7 +695,7 @@ func parseJSONValue(key_value string, string_value string, list *([](*Value))) [
 
 					float32_temp, float32_temp_error := strconv.ParseFloat(string_value, 32)
 					if float32_temp_error != nil {
-					} else {
+					} else if float32_temp == float64_temp || strconv.FormatFloat(float32_temp, 'g', -1, 32) == strconv.FormatFloat(float64_temp, 'g', -1, 64) {
 						data_type = "float32"
 						float32_conv := float32(float32_temp)
 						float32_value = &float32_conv
-- 
2.43.0


From a574f6fa3872ea637ee3f7c07c6416ccef44fc51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:39 +0000
Subject: [PATCH 18/29] fix: Parse follows the JSON number grammar, accepting
 exponents and rejecting leading zeros, plus signs and hexadecimal

---
 json/JSON.go | 32 ++++++++------------------------
 1 file changed, 8 insertions(+), 24 deletions(-)

diff --git a/json/JSON.go b/json/JSON.go
index 3128c50..1e23725 100644
--- a/json/JSON.go
+++ b/json/JSON.go
@@ -5,6 +5,7 @@ import (
 	"math"
 	"net/url"
 	"os/exec"
+	"regexp"
 	"strconv"
 	"strings"
 	"time"
@@ -14,6 +15,8 @@ import (
 	common "github.com/matehaxor03/holistic_common/common"
 )
 
+var json_number = regexp.MustCompile(`^-?(0|[1-9][0-9]*)(\.[0-9]+)?([eE][+-]?[0-9]+)?$`)
+
 func cloneString(value *string) *string {
 	if value == nil {
 		return nil
@@ -658,33 +661,14 @@ func parseJSONValue(key_value string, string_value string, list *([](*Value))) [
 		} else if string_value == "" {
 			data_type = "empty"
 		} else {
-			var negative_number bool
-			negative_number_count := strings.Count(string_value, "-")
-			if negative_number_count == 1 {
-				negative_number = true
-				if !strings.HasPrefix(string_value, "-") {
-					errors = append(errors, fmt.Errorf("error: negative symbol is not at the start of the number"))
-				}
-			} else if negative_number_count == 0 {
-				negative_number = false
-			} else {
-				errors = append(errors, fmt.Errorf("error: value contained %d negative symbols expected 1", negative_number_count))
-			}
-
-			var decimal_number bool
-			decimal_count := strings.Count(string_value, ".")
-			if decimal_count == 1 {
-				decimal_number = true
-			} else if decimal_count == 0 {
-				decimal_number = false
-			} else {
-				errors = append(errors, fmt.Errorf("error: value contained %d decimal points expected 1", decimal_count))
-			}
-
-			if len(errors) > 0 {
+			if !json_number.MatchString(string_value) {
+				errors = append(errors, fmt.Errorf("error: value is not a number, true, false, null or a quoted string: '%s'", string_value))
 				return errors
 			}
 
+			negative_number := strings.HasPrefix(string_value, "-")
+			decimal_number := strings.ContainsAny(string_value, ".eE")
+
 			if decimal_number {
 				data_type = "float64"
 				float64_temp, float64_temp_error := strconv.ParseFloat(string_value, 64)
-- 
2.43.0


From 43a196be893139a995a60cf151f885435d626723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:10 +0000
Subject: [PATCH 19/29] fix: Parse rejects keys without a value and several
 scalars without a comma between them

---
 json/JSON.go | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/json/JSON.go b/json/JSON.go
index 1e23725..f22755f 100644
--- a/json/JSON.go
+++ b/json/JSON.go
@@ -604,7 +604,7 @@ func parseJSONValue(key_value string, string_value string, list *([](*Value))) [
 	data_type := ""
 
 	key_value = strings.TrimSpace(key_value)
-	string_value = strings.TrimSpace(string_value)
+	string_value = strings.Trim(string_value, " \t\r\n")
 
 	if ((*list)[len(*list)-1]).IsMap() {
 		if strings.HasPrefix(key_value, "\"") && strings.HasSuffix(key_value, "\"") {
@@ -642,11 +642,14 @@ func parseJSONValue(key_value string, string_value string, list *([](*Value))) [
 	var uint8_value *uint8
 
 	if data_type != "string" {
-		string_value = strings.ReplaceAll(string_value, "\n", "")
-		string_value = strings.ReplaceAll(string_value, "\t", "")
-		string_value = strings.ReplaceAll(string_value, " ", "")
-		string_value = strings.ReplaceAll(string_value, "\r", "")
-		string_value = strings.ReplaceAll(string_value, "\\", "")
+		fields := strings.FieldsFunc(string_value, func(r rune) bool {
+			return r == ' ' || r == '\t' || r == '\r' || r == '\n' || r == '\\'
+		})
+		if len(fields) > 1 {
+			errors = append(errors, fmt.Errorf("error: found more than one value where a single value is expected: '%s'", string_value))
+			return errors
+		}
+		string_value = strings.Join(fields, "")
 
 		if string_value == "true" {
 			data_type = "bool"
@@ -871,7 +874,7 @@ func parseJSONValue(key_value string, string_value string, list *([](*Value))) [
 		} else if data_type == "uint64" {
 			(*value_as_map).SetUInt64Value(key_value, *uint64_value)
 		} else if data_type == "empty" {
-
+			errors = append(errors, fmt.Errorf("error: key '%s' does not have a value", key_value))
 		} else {
 			errors = append(errors, fmt.Errorf("json.PaseJSONValue type is not supported for Map %s", data_type))
 		}
-- 
2.43.0


From 0256db06e984a519b6e50231678afc48df784b2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:27 +0000
Subject: [PATCH 20/29] fix: Parse rejects stray text where a key, colon, comma
 or closing bracket is expected

---
 json/JSON.go | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/json/JSON.go b/json/JSON.go
index f22755f..b28ad96 100644
--- a/json/JSON.go
+++ b/json/JSON.go
@@ -255,6 +255,17 @@ func parseUnicodeEscape(value string) (rune, bool) {
 	return rune(code), true
 }
 
+func isIgnoredBetweenTokens(previous_value string, value string) bool {
+	switch value {
+	case " ", "\t", "\r", "\n", "\\":
+		return true
+	case "n", "r", "t":
+		return previous_value == "\\"
+	default:
+		return false
+	}
+}
+
 func parseJSONMap(json_string string, index *uint64, mode *string, metrics *Map) (*Map, []error) {
 	var errors []error
 	array_list := [](*Value){}
@@ -399,6 +410,9 @@ func parseJSONMap(json_string string, index *uint64, mode *string, metrics *Map)
 			} else if value == "\"" && previous_value != "\\" {
 				current_mode = mode_looking_for_key_name
 				temp_key_r += value
+			} else if value != "," && !isIgnoredBetweenTokens(previous_value, value) {
+				errors = append(errors, fmt.Errorf("error: expected a key, comma or } at index: %d", i))
+				return nil, errors
 			}
 			*index++
 			continue
@@ -416,6 +430,9 @@ func parseJSONMap(json_string string, index *uint64, mode *string, metrics *Map)
 		if current_mode == mode_looking_for_key_name_column {
 			if string(value) == ":" {
 				current_mode = mode_looking_for_next_value_or_end
+			} else if !isIgnoredBetweenTokens(previous_value, value) {
+				errors = append(errors, fmt.Errorf("error: expected : after key at index: %d", i))
+				return nil, errors
 			}
 			*index++
 			continue
-- 
2.43.0


From f68bedbd81662f1ebf858372557b0740c72a90e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:13 +0000
Subject: [PATCH 21/29] fix: Parse rejects missing, leading, repeated and
 trailing commas

---
 json/JSON.go | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/json/JSON.go b/json/JSON.go
index b28ad96..3ccb7c8 100644
--- a/json/JSON.go
+++ b/json/JSON.go
@@ -281,6 +281,8 @@ func parseJSONMap(json_string string, index *uint64, mode *string, metrics *Map)
 	var temp_value_r string
 	parsing_string := false
 	next_value_is_escaped := false
+	comma_required := false
+	comma_was_last := false
 	temp_mode := cloneString(mode)
 	current_mode := *temp_mode
 	var parent_map *Map = nil
@@ -365,6 +367,8 @@ func parseJSONMap(json_string string, index *uint64, mode *string, metrics *Map)
 
 					temp_key_r = ""
 					temp_value_r = ""
+					comma_required = true
+					comma_was_last = false
 
 					if len(*list) >= 1 {
 						if ((*list)[len(*list)-1]).IsMap() {
@@ -380,6 +384,28 @@ func parseJSONMap(json_string string, index *uint64, mode *string, metrics *Map)
 			}
 		}
 
+		if parsing_string {
+			if comma_required {
+				errors = append(errors, fmt.Errorf("error: missing comma at index: %d", i))
+			}
+		} else if strings.Contains("{[,]}", value) {
+			scalar_was_last := strings.Trim(temp_value_r, " \t\r\n\\") != ""
+			is_opening := value == "{" || value == "["
+			if (comma_required && scalar_was_last) || (is_opening && (comma_required || scalar_was_last)) {
+				errors = append(errors, fmt.Errorf("error: missing comma at index: %d", i))
+			} else if value == "," && !comma_required && !scalar_was_last {
+				errors = append(errors, fmt.Errorf("error: comma does not follow a value at index: %d", i))
+			} else if !is_opening && comma_was_last && !scalar_was_last {
+				errors = append(errors, fmt.Errorf("error: comma is not followed by a value at index: %d", i))
+			}
+			comma_required = value == "}" || value == "]"
+			comma_was_last = value == ","
+		}
+
+		if len(errors) > 0 {
+			return nil, errors
+		}
+
 		if current_mode == mode_looking_for_next_value_or_end {
 			if value == " " ||
 				value == "\n" ||
-- 
2.43.0


From 8abfbc141061b188f2f2a5f97d03bf8e98a1f3e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:50 +0000
Subject: [PATCH 22/29] fix: implement the declared accessors that were left
 nil and panicked when called

---
 json/Array.go | 91 +++++++++++++++++++++++++++++++++++++++++++++++++++
 json/Map.go   | 40 ++++++++++++++++++++++
 json/Value.go | 32 ++++++++++++++++++
 3 files changed, 163 insertions(+)

diff --git a/json/Array.go b/json/Array.go
index efe27a8..ad18de1 100644
--- a/json/Array.go
+++ b/json/Array.go
@@ -486,6 +486,94 @@ func NewArrayOfValues(a *[]interface{}) (*Array) {
 		
 			return value, nil
 		},
+		GetArrayOfInt: func() (*[](*int), []error) {
+			var errors []error
+			var result ([](*int))
+			for _, array_value := range *getValues() {
+				if array_value == nil {
+					result = append(result, nil)
+				} else {
+					int_value, int_value_errors := array_value.GetInt()
+					if int_value_errors != nil {
+						errors = append(errors, int_value_errors...)
+					} else {
+						result = append(result, int_value)
+					}
+				}
+			}
+
+			if len(errors) > 0 {
+				return nil, errors
+			}
+
+			return &result, nil
+		},
+		GetArrayOfIntValue: func() ([](int), []error) {
+			var errors []error
+			var result ([](int))
+			for _, array_value := range *getValues() {
+				if array_value == nil {
+					errors = append(errors, fmt.Errorf("array contained a null value"))
+				} else {
+					int_value, int_value_errors := array_value.GetIntValue()
+					if int_value_errors != nil {
+						errors = append(errors, int_value_errors...)
+					} else {
+						result = append(result, int_value)
+					}
+				}
+			}
+
+			if len(errors) > 0 {
+				return nil, errors
+			}
+
+			return result, nil
+		},
+		GetArrayOfUInt: func() (*[](*uint), []error) {
+			var errors []error
+			var result ([](*uint))
+			for _, array_value := range *getValues() {
+				if array_value == nil {
+					result = append(result, nil)
+				} else {
+					uint_value, uint_value_errors := array_value.GetUInt()
+					if uint_value_errors != nil {
+						errors = append(errors, uint_value_errors...)
+					} else {
+						result = append(result, uint_value)
+					}
+				}
+			}
+
+			if len(errors) > 0 {
+				return nil, errors
+			}
+
+			return &result, nil
+		},
+		GetArrayOfUIntValue: func() ([](uint), []error) {
+			var errors []error
+			var result ([](uint))
+			for _, array_value := range *getValues() {
+				if array_value == nil {
+					errors = append(errors, fmt.Errorf("array contained a null value"))
+				} else {
+					uint_value, uint_value_errors := array_value.GetUIntValue()
+					if uint_value_errors != nil {
+						errors = append(errors, uint_value_errors...)
+					} else {
+						result = append(result, uint_value)
+					}
+				}
+			}
+
+			if len(errors) > 0 {
+				return nil, errors
+			}
+
+			return result, nil
+		},
 		GetArrayOfInt8: func() (*[](*int8), []error) {
 			array_values := getValues()
 			if common.IsNil(array_values) {
@@ -1140,6 +1228,9 @@ func NewArrayOfValues(a *[]interface{}) (*Array) {
 				return result, nil
 		},
 	}
+	created_array.GetArrayValue = func() (Array, []error) {
+		return created_array, nil
+	}
 	return &created_array
 }
 
diff --git a/json/Map.go b/json/Map.go
index e9058c2..66780ea 100644
--- a/json/Map.go
+++ b/json/Map.go
@@ -599,6 +599,24 @@ func NewMapOfValues(m *map[string]interface{}) *Map {
 		GetArrayValue: func(s string) (Array, []error) {
 			return getArrayValue(s)
 		},
+		GetArrayOfInt: func(s string) (*[]*int, []error) {
+			array, array_errors := getArray(s)
+			if array_errors != nil {
+				return nil, array_errors
+			} else if common.IsNil(array) {
+				return nil, nil
+			}
+			return array.GetArrayOfInt()
+		},
+		GetArrayOfUInt: func(s string) (*[]*uint, []error) {
+			array, array_errors := getArray(s)
+			if array_errors != nil {
+				return nil, array_errors
+			} else if common.IsNil(array) {
+				return nil, nil
+			}
+			return array.GetArrayOfUInt()
+		},
 		GetArrayOfInt8: func(s string) (*[]*int8, []error) {
 			array, array_errors := getArray(s)
 			if array_errors != nil {
@@ -812,6 +830,14 @@ func NewMapOfValues(m *map[string]interface{}) *Map {
 			}
 			return getInternalValue(s).GetBool()
 		},
+		GetBoolValue: func(s string) (bool, []error) {
+			if isValueNilForMap(s) {
+				var errors []error
+				errors = append(errors, fmt.Errorf("json.Map.GetBoolValue value is nil"))
+				return false, errors
+			}
+			return getInternalValue(s).GetBoolValue()
+		},
 		SetBool: func(s string, value *bool) {
 			set_map_value := NewValue(value)
 			setInternalValue(s, set_map_value)
@@ -965,6 +991,20 @@ func NewMapOfValues(m *map[string]interface{}) *Map {
 			}
 			return getInternalValue(s).GetIntValue()
 		},
+		GetUInt: func(s string) (*uint, []error) {
+			if isValueNilForMap(s) {
+				return nil, nil
+			}
+			return getInternalValue(s).GetUInt()
+		},
+		GetUIntValue: func(s string) (uint, []error) {
+			if isValueNilForMap(s) {
+				var errors []error
+				errors = append(errors, fmt.Errorf("json.Map.GetUIntValue value is nil"))
+				return 0, errors
+			}
+			return getInternalValue(s).GetUIntValue()
+		},
 		SetInt: func(s string, value *int) {
 			set_map_value := NewValue(value)
 			setInternalValue(s, set_map_value)
diff --git a/json/Value.go b/json/Value.go
index 1bbddbc..d97d2ed 100644
--- a/json/Value.go
+++ b/json/Value.go
@@ -1839,6 +1839,38 @@ func NewValue(v interface{}) (*Value) {
 		
 			return result, nil
 		},
+		GetUInt: func() (*uint, []error) {
+			if strconv.IntSize == 32 {
+				temp_value, temp_value_errors := this().GetUInt32()
+				if temp_value_errors != nil {
+					return nil, temp_value_errors
+				} else if temp_value == nil {
+					return nil, nil
+				}
+				result := uint(*temp_value)
+				return &result, nil
+			}
+
+			temp_value, temp_value_errors := this().GetUInt64()
+			if temp_value_errors != nil {
+				return nil, temp_value_errors
+			} else if temp_value == nil {
+				return nil, nil
+			}
+			result := uint(*temp_value)
+			return &result, nil
+		},
+		GetUIntValue: func() (uint, []error) {
+			uint_value, uint_value_errors := this().GetUInt()
+			if uint_value_errors != nil {
+				return 0, uint_value_errors
+			} else if uint_value == nil {
+				var errors []error
+				errors = append(errors, fmt.Errorf("error: Value.GetUInt returned nil"))
+				return 0, errors
+			}
+			return *uint_value, nil
+		},
 		SetObject: func(value interface{}) () {
 			setObject(value)
 		},
-- 
2.43.0


From b3789eab5478a42e5d574805026c784a897f20df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:12 +0000
Subject: [PATCH 23/29] fix: Value.Clone copes with nil errors in an error list
 instead of panicking

---
 json/Value.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/json/Value.go b/json/Value.go
index d97d2ed..5384d29 100644
--- a/json/Value.go
+++ b/json/Value.go
@@ -216,6 +216,10 @@ func NewValue(v interface{}) (*Value) {
 					result := temp_object.([]error)
 					var result_array []error
 					for _, result_array_value := range result {
+						if result_array_value == nil {
+							result_array = append(result_array, nil)
+							continue
+						}
 						e := fmt.Errorf("%s", result_array_value.Error())
 						result_array = append(result_array, e)
 					}	
-- 
2.43.0


From 3c33f9469765329fb583b66105b4441ea79247ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:44 +0000
Subject: [PATCH 24/29] fix: text and error messages such as "nil", "<nil>" and
 "map[]" are no longer mistaken for nil

---
 json/Array.go |  2 +-
 json/JSON.go  | 39 +++++++++++++++++++++++++++++++++------
 json/Map.go   | 10 +++++-----
 json/Value.go | 28 ++++++++++++++--------------
 4 files changed, 53 insertions(+), 26 deletions(-)

diff --git a/json/Array.go b/json/Array.go
index ad18de1..b442c5a 100644
--- a/json/Array.go
+++ b/json/Array.go
@@ -97,7 +97,7 @@ func NewArrayOfValues(a *[]interface{}) (*Array) {
 	if !common.IsNil(a) {
 		current_type := ""
 		for _, value := range *a {
-			current_type = common.GetType(value)
+			current_type = getType(value)
 			if current_type == "json.Value" {
 				temp_value := ((value).(Value))
 				*values = append(*values, &temp_value)
diff --git a/json/JSON.go b/json/JSON.go
index 3ccb7c8..236e128 100644
--- a/json/JSON.go
+++ b/json/JSON.go
@@ -5,6 +5,7 @@ import (
 	"math"
 	"net/url"
 	"os/exec"
+	"reflect"
 	"regexp"
 	"strconv"
 	"strings"
@@ -26,6 +27,32 @@ func cloneString(value *string) *string {
 	return &temp
 }
 
+// common.IsNil inspects the text of an object, so the texts "nil", "<nil>" and
+// "map[]" stored in a string or an error have to be kept away from it
+func isNil(object interface{}) bool {
+	switch object.(type) {
+	case string:
+		return false
+	case error:
+		object_value := reflect.ValueOf(object)
+		return object_value.Kind() == reflect.Ptr && object_value.IsNil()
+	default:
+		return common.IsNil(object)
+	}
+}
+
+func getType(object interface{}) string {
+	if isNil(object) {
+		return "nil"
+	}
+	return fmt.Sprintf("%T", object)
+}
+
+func isString(object interface{}) bool {
+	type_of := getType(object)
+	return type_of == "string" || type_of == "*string"
+}
+
 func getTimeNow() *time.Time {
 	now := time.Now()
 	return &now
@@ -939,12 +966,12 @@ func ConvertInterfaceValueToJSONStringValue(json *strings.Builder, value interfa
 		return errors
 	}
 
-	if common.IsNil(value) {
+	if isNil(value) {
 		json.WriteString("null")
 		return nil
 	}
 
-	rep := common.GetType(value)
+	rep := getType(value)
 	var temp_value interface{}
 	if rep == "json.Value" {
 		temp_value = (value.(Value)).GetObject()
@@ -954,7 +981,7 @@ func ConvertInterfaceValueToJSONStringValue(json *strings.Builder, value interfa
 		temp_value = value
 	}
 
-	rep = common.GetType(temp_value)
+	rep = getType(temp_value)
 	switch rep {
 	case "string":
 		temp_string := temp_value.(string)
@@ -1162,11 +1189,11 @@ func ConvertInterfaceValueToStringValue(value interface{}) (string, []error) {
 	var errors []error
 	var result string
 
-	if common.IsNil(value) {
+	if isNil(value) {
 		return "null", nil
 	}
 
-	rep := common.GetType(value)
+	rep := getType(value)
 	var temp_value interface{}
 	if rep == "json.Value" {
 		temp_value = (value.(Value)).GetObject()
@@ -1176,7 +1203,7 @@ func ConvertInterfaceValueToStringValue(value interface{}) (string, []error) {
 		temp_value = value
 	}
 
-	rep = common.GetType(temp_value)
+	rep = getType(temp_value)
 	switch rep {
 	case "string":
 		result = temp_value.(string)
diff --git a/json/Map.go b/json/Map.go
index 66780ea..e84577b 100644
--- a/json/Map.go
+++ b/json/Map.go
@@ -220,15 +220,15 @@ func NewMapOfValues(m *map[string]interface{}) *Map {
 			return true
 		}
 
-		type_of := common.GetType(value)
+		type_of := getType(value)
 		if type_of == "*json.Value" {
 			temp_object := value.GetObject()
-			if common.IsNil(temp_object) {
+			if isNil(temp_object) {
 				return true
 			}
 		} else if type_of == "json.Value" {
 			temp_object := value.GetObject()
-			if common.IsNil(temp_object) {
+			if isNil(temp_object) {
 				return true
 			}
 		}
@@ -412,10 +412,10 @@ func NewMapOfValues(m *map[string]interface{}) *Map {
 		return cloned, nil
 	}
 
-	if !common.IsNil(m) {
+	if m != nil {
 		current_type := ""
 		for key, value := range *m {
-			current_type = common.GetType(value)
+			current_type = getType(value)
 			if current_type == "json.Value" {
 				temp_value := ((value).(Value))
 				setInternalValue(key, &temp_value)
diff --git a/json/Value.go b/json/Value.go
index 5384d29..d43d601 100644
--- a/json/Value.go
+++ b/json/Value.go
@@ -395,7 +395,7 @@ func NewValue(v interface{}) (*Value) {
 				return false
 			}
 
-			if !common.IsString(this().GetObject()) {
+			if !isString(this().GetObject()) {
 				return false
 			}
 		
@@ -455,7 +455,7 @@ func NewValue(v interface{}) (*Value) {
 		
 			var errors []error
 			var result (func(string) []error)
-			rep := common.GetType(getObject())
+			rep := getType(getObject())
 			switch rep {
 			case "func(string) []error":
 				result = (this().GetObject()).(func(string) []error)
@@ -479,7 +479,7 @@ func NewValue(v interface{}) (*Value) {
 			var errors []error
 			var result []error
 			
-			rep := common.GetType(getObject())
+			rep := getType(getObject())
 			switch rep {
 			case "*[]error":
 				result = *(this().GetObject().(*[]error))
@@ -533,7 +533,7 @@ func NewValue(v interface{}) (*Value) {
 			var errors []error
 			var result *Array
 		
-			rep := common.GetType(getObject())
+			rep := getType(getObject())
 			switch rep {
 			case "*json.Array":
 				result = this().GetObject().(*Array)
@@ -569,7 +569,7 @@ func NewValue(v interface{}) (*Value) {
 		
 			var errors []error
 			var result *string
-			rep := common.GetType(getObject())
+			rep := getType(getObject())
 			switch rep {
 			case "string":
 				value := this().GetObject().(string)
@@ -620,7 +620,7 @@ func NewValue(v interface{}) (*Value) {
 			return common.IsNumber(this().GetObject())
 		},
 		IsString: func() (bool) {
-			return common.IsString(this().GetObject())
+			return isString(this().GetObject())
 		},
 		IsValueEqualToString: func(s *string) (bool) {
 			this_nil := this().IsNil()
@@ -655,7 +655,7 @@ func NewValue(v interface{}) (*Value) {
 		},
 		IsNil: func() bool {
 			temp_value := this().GetObject()
-			return common.IsNil(temp_value)
+			return isNil(temp_value)
 		},
 		IsBool: func() bool {
 			return common.IsBool(this().GetObject())
@@ -670,7 +670,7 @@ func NewValue(v interface{}) (*Value) {
 		
 			var errors []error
 			var result *float64
-			rep := common.GetType(getObject())
+			rep := getType(getObject())
 			switch rep {
 			case "float64":
 				value := this().GetObject().(float64)
@@ -884,7 +884,7 @@ func NewValue(v interface{}) (*Value) {
 		
 			var errors []error
 			var result *string
-			rep := common.GetType(getObject())
+			rep := getType(getObject())
 			switch rep {
 			case "string":
 				value := this().GetObject().(string)
@@ -926,7 +926,7 @@ func NewValue(v interface{}) (*Value) {
 			var result *bool
 			var errors []error
 		
-			rep := common.GetType(getObject())
+			rep := getType(getObject())
 			switch rep {
 			case "bool":
 				value := this().GetObject().(bool)
@@ -976,7 +976,7 @@ func NewValue(v interface{}) (*Value) {
 			}
 		
 			var result bool
-			rep := common.GetType(getObject())
+			rep := getType(getObject())
 			switch rep {
 			case "bool":
 				result = this().GetObject().(bool)
@@ -1025,7 +1025,7 @@ func NewValue(v interface{}) (*Value) {
 				return nil, nil
 			}
 		
-			rep := common.GetType(getObject())
+			rep := getType(getObject())
 			switch rep {
 				case "json.Value":
 					string_value, convert_errors := ConvertInterfaceValueToStringValue(this().GetObject().(Value))
@@ -1223,7 +1223,7 @@ func NewValue(v interface{}) (*Value) {
 			}
 
 			var uint64_value uint64
-			rep := common.GetType(getObject())
+			rep := getType(getObject())
 			switch rep {
 			case "*int64":
 				x := *(this().GetObject().(*int64))
@@ -1388,7 +1388,7 @@ func NewValue(v interface{}) (*Value) {
 			setObject(value)
 		},
 		GetType: func() string {
-			return common.GetType(this().GetObject())
+			return getType(this().GetObject())
 		},
 		IsInteger: func() bool {
 			return common.IsInteger(this().GetObject())
-- 
2.43.0


From 01f209439f182b73560d4ad32125116c085f2179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:41 +0000
Subject: [PATCH 25/29] fix: a quote after a stray backslash opens a string
 instead of panicking the parser

---
 json/JSON.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/json/JSON.go b/json/JSON.go
index 236e128..5e6a93f 100644
--- a/json/JSON.go
+++ b/json/JSON.go
@@ -336,7 +336,7 @@ func parseJSONMap(json_string string, index *uint64, mode *string, metrics *Map)
 		}
 
 		if !parsing_string {
-			if value == "\"" && previous_value != "\\" {
+			if value == "\"" {
 				parsing_string = true
 				opention_quote, opention_quote_errors := metrics.GetInt("opening_quote")
 				if opention_quote_errors != nil {
-- 
2.43.0


From 7005048b25a2ad1c0c21628fdd7a8dcdf178d29c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:13 +0000
Subject: [PATCH 26/29] fix: floats are written as their shortest decimal, so
 that writing, parsing and writing again gives the same text

---
 json/JSON.go | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/json/JSON.go b/json/JSON.go
index 5e6a93f..f0c3e6b 100644
--- a/json/JSON.go
+++ b/json/JSON.go
@@ -172,13 +172,18 @@ func unquote_key_value(key string) (string, []error) {
 	return key, nil
 }
 
+// the shortest decimal that reads back as the same value, with at least six decimal places
 func formatFloat(value float64, bit_size int) string {
-	result := strconv.FormatFloat(value, 'f', 6, bit_size)
-	parsed_value, parsed_value_error := strconv.ParseFloat(result, bit_size)
-	if parsed_value_error == nil && parsed_value != value && !math.IsNaN(value) {
-		result = strconv.FormatFloat(value, 'f', -1, bit_size)
+	result := strconv.FormatFloat(value, 'f', -1, bit_size)
+	if math.IsNaN(value) || math.IsInf(value, 0) {
+		return result
+	}
+
+	whole, decimals, _ := strings.Cut(result, ".")
+	for len(decimals) < 6 {
+		decimals += "0"
 	}
-	return result
+	return whole + "." + decimals
 }
 
 func writeJSONFloat(json *strings.Builder, value float64, bit_size int) []error {
@@ -752,7 +757,7 @@ func parseJSONValue(key_value string, string_value string, list *([](*Value))) [
 
 					float32_temp, float32_temp_error := strconv.ParseFloat(string_value, 32)
 					if float32_temp_error != nil {
-					} else if float32_temp == float64_temp || strconv.FormatFloat(float32_temp, 'g', -1, 32) == strconv.FormatFloat(float64_temp, 'g', -1, 64) {
+					} else if strconv.FormatFloat(float32_temp, 'g', -1, 32) == strconv.FormatFloat(float64_temp, 'g', -1, 64) {
 						data_type = "float32"
 						float32_conv := float32(float32_temp)
 						float32_value = &float32_conv
-- 
2.43.0


From a7e5b1a2dd306cda12369b05c8c02cd6356fedd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:15 +0000
Subject: [PATCH 27/29] fix: Clone copies the lists of errors and strings the
 other operations support

---
 json/Value.go | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/json/Value.go b/json/Value.go
index d43d601..628a510 100644
--- a/json/Value.go
+++ b/json/Value.go
@@ -224,6 +224,24 @@ func NewValue(v interface{}) (*Value) {
 						result_array = append(result_array, e)
 					}	
 					cloned_value.SetErrorsValue(result_array)				
+				case "*[]error":
+					result := *(temp_object.(*[]error))
+					var result_array []error
+					for _, result_array_value := range result {
+						if result_array_value == nil {
+							result_array = append(result_array, nil)
+							continue
+						}
+						e := fmt.Errorf("%s", result_array_value.Error())
+						result_array = append(result_array, e)
+					}
+					cloned_value.SetErrors(&result_array)
+				case "[]string":
+					result := append([]string{}, temp_object.([]string)...)
+					cloned_value.SetObject(result)
+				case "*[]string":
+					result := append([]string{}, *(temp_object.(*[]string))...)
+					cloned_value.SetObject(&result)
 				case "*error":
 					result := fmt.Sprintf("%s", (*(temp_object.(*error))).Error())
 					cloned_error := fmt.Errorf("%s", result)
-- 
2.43.0


From 923778e4522772b3b62608135acdeac53d430508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:28 +0000
Subject: [PATCH 28/29] fix: only nil pointers, maps, functions and channels
 are nil, whatever text a value prints as

---
 json/JSON.go | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/json/JSON.go b/json/JSON.go
index f0c3e6b..e58377b 100644
--- a/json/JSON.go
+++ b/json/JSON.go
@@ -27,17 +27,19 @@ func cloneString(value *string) *string {
 	return &temp
 }
 
-// common.IsNil inspects the text of an object, so the texts "nil", "<nil>" and
-// "map[]" stored in a string or an error have to be kept away from it
+// common.IsNil inspects the text of an object, so everything whose text is
+// "nil", "<nil>" or "map[]" (strings, errors, empty Go maps) would look nil
 func isNil(object interface{}) bool {
-	switch object.(type) {
-	case string:
-		return false
-	case error:
-		object_value := reflect.ValueOf(object)
-		return object_value.Kind() == reflect.Ptr && object_value.IsNil()
+	if object == nil {
+		return true
+	}
+
+	object_value := reflect.ValueOf(object)
+	switch object_value.Kind() {
+	case reflect.Ptr, reflect.Map, reflect.Func, reflect.Chan, reflect.UnsafePointer:
+		return object_value.IsNil()
 	default:
-		return common.IsNil(object)
+		return false
 	}
 }
 
-- 
2.43.0


From e8c2b19b92a0e550a3dd16e6abc98e2db351bde4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:56 +0000
Subject: [PATCH 29/29] fix: a pointer to a nil error is null, cloning and
 rendering it panicked

---
 json/JSON.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/json/JSON.go b/json/JSON.go
index e58377b..9b9a93b 100644
--- a/json/JSON.go
+++ b/json/JSON.go
@@ -34,6 +34,10 @@ func isNil(object interface{}) bool {
 		return true
 	}
 
+	if error_pointer, is_error_pointer := object.(*error); is_error_pointer {
+		return error_pointer == nil || *error_pointer == nil
+	}
+
 	object_value := reflect.ValueOf(object)
 	switch object_value.Kind() {
 	case reflect.Ptr, reflect.Map, reflect.Func, reflect.Chan, reflect.UnsafePointer:
-- 
2.43.0

