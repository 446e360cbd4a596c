From edfeaa0a704da4965a41db8614fc9e29a7bfc310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:44 +0000
Subject: [PATCH 01/24] fix: keep multi-byte characters intact when parsing

Each byte of the text was converted to a rune of its own, so every
multi-byte character in a string or key was re-encoded as several others.
---
 json/JSON.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/json/JSON.go b/json/JSON.go
index 475ee08..f75b2ed 100644
--- a/json/JSON.go
+++ b/json/JSON.go
@@ -161,9 +161,9 @@ func parseJSONMap(json_string string, index *uint64, mode *string, metrics *Map)
 		i := *index
 		previous_value := ""
 		if *index > 0 {
-			previous_value = string(json_string[i-1])
+			previous_value = json_string[i-1:i]
 		}
-		value := string(json_string[i])
+		value := json_string[i:i+1]
 		rune_values := []rune(value)
 		rune_value := rune_values[0]
 
-- 
2.43.0


From c02e971ea63e74933c3b217f95c9f303ae65ac68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:28 +0000
Subject: [PATCH 02/24] fix: end a string literal at a quote preceded by an
 even number of backslashes

A quote after an escaped backslash was taken for an escaped quote, so
texts such as {"a":"\\\\"} were refused.
---
 json/JSON.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/json/JSON.go b/json/JSON.go
index f75b2ed..18182e1 100644
--- a/json/JSON.go
+++ b/json/JSON.go
@@ -157,11 +157,16 @@ func parseJSONMap(json_string string, index *uint64, mode *string, metrics *Map)
 	current_mode := *temp_mode
 	var parent_map *Map = nil
 
+	previous_value := ""
+
 	for *index < uint64(len(json_string)) {
 		i := *index
-		previous_value := ""
 		if *index > 0 {
-			previous_value = json_string[i-1:i]
+			if json_string[i-1] == '\\' && previous_value == "\\" {
+				previous_value = ""
+			} else {
+				previous_value = json_string[i-1:i]
+			}
 		}
 		value := json_string[i:i+1]
 		rune_values := []rune(value)
-- 
2.43.0


From 2236395de066d7dc6abea0291bdac9f0c7e05e10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:55 +0000
Subject: [PATCH 03/24] fix: decode every escape sequence of string literals
 and keys

Only \" was decoded, and not even that in the keys of nested objects and
arrays.
---
 json/JSON.go | 71 +++++++++++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 65 insertions(+), 6 deletions(-)

diff --git a/json/JSON.go b/json/JSON.go
index 18182e1..640733f 100644
--- a/json/JSON.go
+++ b/json/JSON.go
@@ -7,6 +7,8 @@ import (
 	"strconv"
 	"strings"
 	"time"
+	"unicode/utf16"
+	"unicode/utf8"
 
 	common "github.com/matehaxor03/holistic_common/common"
 )
@@ -127,7 +129,7 @@ func Parse(s string) (*Map, []error) {
 func unquote_key_value(key string) (string, []error) {
 	var errors []error
 	if strings.HasPrefix(key, "\"") && strings.HasSuffix(key, "\"") {
-		key = (key)[1:(len(key) - 1)]
+		key = unescapeString((key)[1:(len(key) - 1)])
 	} else {
 		errors = append(errors, fmt.Errorf("error: key does not start with  \" or end with \""))
 	}
@@ -139,6 +141,66 @@ func unquote_key_value(key string) (string, []error) {
 	return key, nil
 }
 
+// unescapeString decodes the escape sequences of a string literal, what is not one is kept as it is
+func unescapeString(value string) string {
+	if !strings.Contains(value, "\\") {
+		return value
+	}
+
+	var result strings.Builder
+	for i := 0; i < len(value); i++ {
+		if value[i] != '\\' || i+1 == len(value) {
+			result.WriteByte(value[i])
+			continue
+		}
+
+		i++
+		switch value[i] {
+		case '"', '\\', '/':
+			result.WriteByte(value[i])
+		case 'b':
+			result.WriteByte('\b')
+		case 'f':
+			result.WriteByte('\f')
+		case 'n':
+			result.WriteByte('\n')
+		case 'r':
+			result.WriteByte('\r')
+		case 't':
+			result.WriteByte('\t')
+		case 'u':
+			character, character_found := parseUnicodeEscape(value[i-1:])
+			if !character_found {
+				result.WriteString("\\u")
+				continue
+			}
+
+			i += 4
+			if utf16.IsSurrogate(character) {
+				low_character, low_character_found := parseUnicodeEscape(value[i+1:])
+				character = utf16.DecodeRune(character, low_character)
+				if low_character_found && character != utf8.RuneError {
+					i += 6
+				}
+			}
+			result.WriteRune(character)
+		default:
+			result.WriteByte('\\')
+			result.WriteByte(value[i])
+		}
+	}
+	return result.String()
+}
+
+func parseUnicodeEscape(value string) (rune, bool) {
+	if len(value) < 6 || value[0] != '\\' || value[1] != 'u' {
+		return 0, false
+	}
+
+	character, character_error := strconv.ParseUint(value[2:6], 16, 32)
+	return rune(character), character_error == nil
+}
+
 func parseJSONMap(json_string string, index *uint64, mode *string, metrics *Map) (*Map, []error) {
 	var errors []error
 	array_list := [](*Value){}
@@ -469,13 +531,10 @@ func parseJSONValue(key_value string, string_value string, list *([](*Value))) [
 	key_value = strings.TrimSpace(key_value)
 	string_value = strings.TrimSpace(string_value)
 
-	key_value = strings.Replace(key_value, "\\\"", "\"", -1)
-	string_value = strings.Replace(string_value, "\\\"", "\"", -1)
-
 	if ((*list)[len(*list)-1]).IsMap() {
 		if strings.HasPrefix(key_value, "\"") && strings.HasSuffix(key_value, "\"") {
 			dequoted_value := (key_value)[1:(len(key_value) - 1)]
-			key_value = dequoted_value
+			key_value = unescapeString(dequoted_value)
 		} else {
 			errors = append(errors, fmt.Errorf("error: key does not start with  \" and/or end with \" key: '%s'", key_value))
 		}
@@ -485,7 +544,7 @@ func parseJSONValue(key_value string, string_value string, list *([](*Value))) [
 		if strings.HasPrefix(string_value, "\"") && strings.HasSuffix(string_value, "\"") {
 			data_type = "string"
 			dequoted_value := (string_value)[1:(len(string_value) - 1)]
-			string_value = dequoted_value
+			string_value = unescapeString(dequoted_value)
 		} else {
 			errors = append(errors, fmt.Errorf("error: value does not start with  \" and/or end with \" value: '%s'", string_value))
 		}
-- 
2.43.0


From b90c257d6803b049ff3379353477ef1340bf9ed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:17 +0000
Subject: [PATCH 04/24] fix: escape backslashes and control characters when
 serialising strings and keys

Strings were written with raw backslashes and control characters, so the
text was not JSON or came back changed; keys had their backquotes escaped
instead of their quotes.
---
 json/JSON.go | 39 +++++++++++++++++++++++++++++----------
 json/Map.go  |  7 +------
 2 files changed, 30 insertions(+), 16 deletions(-)

diff --git a/json/JSON.go b/json/JSON.go
index 640733f..8d644ef 100644
--- a/json/JSON.go
+++ b/json/JSON.go
@@ -830,6 +830,25 @@ func parseJSONValue(key_value string, string_value string, list *([](*Value))) [
 	return nil
 }
 
+// escapeString writes a string in such a way that it can stand between the quotes of a string literal
+func escapeString(value string) string {
+	var result strings.Builder
+	for i := 0; i < len(value); i++ {
+		switch character := value[i]; {
+		case character == '"' || character == '\\':
+			result.WriteByte('\\')
+			result.WriteByte(character)
+		case character < ' ':
+			result.WriteString("\\u00")
+			result.WriteByte("0123456789abcdef"[character>>4])
+			result.WriteByte("0123456789abcdef"[character&15])
+		default:
+			result.WriteByte(character)
+		}
+	}
+	return result.String()
+}
+
 func ConvertInterfaceValueToJSONStringValue(json *strings.Builder, value interface{}) []error {
 	var errors []error
 	if json == nil {
@@ -858,40 +877,40 @@ func ConvertInterfaceValueToJSONStringValue(json *strings.Builder, value interfa
 		temp_string := temp_value.(string)
 		clone_string := common.CloneString(&temp_string)
 		json.WriteString("\"")
-		json.WriteString(strings.ReplaceAll(*clone_string, "\"", "\\\""))
+		json.WriteString(escapeString(*clone_string))
 		json.WriteString("\"")
 	case "*string":
 		clone_string := common.CloneString(temp_value.(*string))
 		json.WriteString("\"")
-		json.WriteString(strings.ReplaceAll(*clone_string, "\"", "\\\""))
+		json.WriteString(escapeString(*clone_string))
 		json.WriteString("\"")
 	case "error":
 		json.WriteString("\"")
-		json.WriteString(strings.ReplaceAll(fmt.Sprintf("%s", temp_value.(error)), "\"", "\\\""))
+		json.WriteString(escapeString(fmt.Sprintf("%s", temp_value.(error))))
 		json.WriteString("\"")
 	case "*error":
 		json.WriteString("\"")
-		json.WriteString(strings.ReplaceAll(fmt.Sprintf("%s", *(temp_value.(*error))), "\"", "\\\""))
+		json.WriteString(escapeString(fmt.Sprintf("%s", *(temp_value.(*error)))))
 		json.WriteString("\"")
 	case "*url.Error":
 		json.WriteString("\"")
-		json.WriteString(strings.ReplaceAll(fmt.Sprintf("%s", (*(temp_value.(*url.Error))).Error()), "\"", "\\\""))
+		json.WriteString(escapeString(fmt.Sprintf("%s", (*(temp_value.(*url.Error))).Error())))
 		json.WriteString("\"")
 	case "exec.ExitError":
 		json.WriteString("\"")
-		json.WriteString(strings.ReplaceAll(fmt.Sprintf("%s", temp_value), "\"", "\\\""))
+		json.WriteString(escapeString(fmt.Sprintf("%s", temp_value)))
 		json.WriteString("\"")
 	case "*exec.ExitError":
 		json.WriteString("\"")
-		json.WriteString(strings.ReplaceAll(fmt.Sprintf("%s", temp_value), "\"", "\\\""))
+		json.WriteString(escapeString(fmt.Sprintf("%s", temp_value)))
 		json.WriteString("\"")
 	case "errors.errorString":
 		json.WriteString("\"")
-		json.WriteString(strings.ReplaceAll(fmt.Sprintf("%s", temp_value), "\"", "\\\""))
+		json.WriteString(escapeString(fmt.Sprintf("%s", temp_value)))
 		json.WriteString("\"")
 	case "*errors.errorString":
 		json.WriteString("\"")
-		json.WriteString(strings.ReplaceAll(fmt.Sprintf("%s", temp_value), "\"", "\\\""))
+		json.WriteString(escapeString(fmt.Sprintf("%s", temp_value)))
 		json.WriteString("\"")
 	case "bool":
 		if temp_value.(bool) {
@@ -983,7 +1002,7 @@ func ConvertInterfaceValueToJSONStringValue(json *strings.Builder, value interfa
 		json.WriteString("]")
 	case "func(string, *string, string, string) []error", "func(json.Map) []error", "*func(json.Map) []error", "*func(string) []error", "func(string) []error":
 		json.WriteString("\"")
-		json.WriteString(strings.ReplaceAll(fmt.Sprintf("%s", rep), "\"", "\\\""))
+		json.WriteString(escapeString(fmt.Sprintf("%s", rep)))
 		json.WriteString("\"")
 	case "*time.Time":
 		json.WriteString("\"")
diff --git a/json/Map.go b/json/Map.go
index 30e06f5..31c48ac 100644
--- a/json/Map.go
+++ b/json/Map.go
@@ -332,13 +332,8 @@ func NewMapOfValues(m *map[string]interface{}) *Map {
 		for i := 0; i < length; i++ {
 			key := (temp_keys)[i]
 			key_clone := common.CloneString(&key)
-			escaped_key, escaped_key_error := common.EscapeString(*key_clone, "\"")
-			if escaped_key_error != nil {
-				errors = append(errors, escaped_key_error)
-				return errors
-			}
 			json.WriteString("\"")
-			json.WriteString(escaped_key)
+			json.WriteString(escapeString(*key_clone))
 			json.WriteString("\":")
 			string_conversion_errors := ConvertInterfaceValueToJSONStringValue(json, internal_map[key])
 			if string_conversion_errors != nil {
-- 
2.43.0


From b5e4ed3ee64de317b099db304d7c0fcee52c6a57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:41 +0000
Subject: [PATCH 05/24] fix: refuse unquoted values that are not true, false,
 null or a decimal number

Blanks inside a value were dropped, so 1 2 was read as 12 and tr ue as
true, and hexadecimal numbers, inf and digits grouped by underscores were
accepted.
---
 json/JSON.go | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/json/JSON.go b/json/JSON.go
index 8d644ef..b947c55 100644
--- a/json/JSON.go
+++ b/json/JSON.go
@@ -529,7 +529,7 @@ func parseJSONValue(key_value string, string_value string, list *([](*Value))) [
 	data_type := ""
 
 	key_value = strings.TrimSpace(key_value)
-	string_value = strings.TrimSpace(string_value)
+	string_value = strings.Trim(string_value, " \n\t\r\\")
 
 	if ((*list)[len(*list)-1]).IsMap() {
 		if strings.HasPrefix(key_value, "\"") && strings.HasSuffix(key_value, "\"") {
@@ -567,12 +567,6 @@ func parseJSONValue(key_value string, string_value string, list *([](*Value))) [
 	var uint8_value *uint8
 
 	if data_type != "string" {
-		string_value = strings.ReplaceAll(string_value, "\n", "")
-		string_value = strings.ReplaceAll(string_value, "\t", "")
-		string_value = strings.ReplaceAll(string_value, " ", "")
-		string_value = strings.ReplaceAll(string_value, "\r", "")
-		string_value = strings.ReplaceAll(string_value, "\\", "")
-
 		if string_value == "true" {
 			data_type = "bool"
 			boolean_value_true := true
@@ -585,6 +579,9 @@ func parseJSONValue(key_value string, string_value string, list *([](*Value))) [
 			data_type = "null"
 		} else if string_value == "" {
 			data_type = "empty"
+		} else if strings.Trim(string_value, "+-.0123456789eE") != "" {
+			errors = append(errors, fmt.Errorf("error: value is not true, false, null or a number: '%s'", string_value))
+			return errors
 		} else {
 			var negative_number bool
 			negative_number_count := strings.Count(string_value, "-")
-- 
2.43.0


From 63364d33cd9bb10127113cdca2bdb5dc77461a0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:43 +0000
Subject: [PATCH 06/24] fix: refuse text that is not properly nested or goes on
 after the last brace

A superfluous closing brace crashed the parser, brackets could be closed
by the other kind, and anything between members, between a key and its
colon or after the outermost object was skipped.
---
 json/JSON.go | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/json/JSON.go b/json/JSON.go
index b947c55..f767991 100644
--- a/json/JSON.go
+++ b/json/JSON.go
@@ -234,6 +234,11 @@ func parseJSONMap(json_string string, index *uint64, mode *string, metrics *Map)
 		rune_values := []rune(value)
 		rune_value := rune_values[0]
 
+		if parent_map != nil && len(*list) == 0 {
+			errors = append(errors, fmt.Errorf("error: unexpected text after the end of the json at index: %d", i))
+			return nil, errors
+		}
+
 		if !parsing_string {
 			if value == "\"" && previous_value != "\\" {
 				parsing_string = true
@@ -338,6 +343,9 @@ func parseJSONMap(json_string string, index *uint64, mode *string, metrics *Map)
 			} else if value == "\"" && previous_value != "\\" {
 				current_mode = mode_looking_for_key_name
 				temp_key_r += value
+			} else if !strings.Contains(" \n\r\t\\,", value) && !(previous_value == "\\" && strings.Contains("nrt", value)) {
+				errors = append(errors, fmt.Errorf("error: expected a key at index: %d", i))
+				return nil, errors
 			}
 			*index++
 			continue
@@ -355,12 +363,25 @@ func parseJSONMap(json_string string, index *uint64, mode *string, metrics *Map)
 		if current_mode == mode_looking_for_key_name_column {
 			if string(value) == ":" {
 				current_mode = mode_looking_for_next_value_or_end
+			} else if !strings.Contains(" \n\r\t\\", value) {
+				errors = append(errors, fmt.Errorf("error: expected a colon at index: %d", i))
+				return nil, errors
 			}
 			*index++
 			continue
 		}
 
 		if !parsing_string {
+			if (value == "{" || value == "[") && strings.Trim(temp_value_r, " \n\r\t\\") != "" {
+				errors = append(errors, fmt.Errorf("error: unexpected %s at index: %d", value, i))
+				return nil, errors
+			}
+
+			if (value == "}" && !((*list)[len(*list)-1]).IsMap()) || (value == "]" && !((*list)[len(*list)-1]).IsArray()) {
+				errors = append(errors, fmt.Errorf("error: mismatched %s at index: %d", value, i))
+				return nil, errors
+			}
+
 			if value == "{" {
 				new_map := NewMapValue()
 				new_map_value := NewValue(new_map)
-- 
2.43.0


From 7c430a62ef95c4e8103645f177d5e7d96ca0fa89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:28 +0000
Subject: [PATCH 07/24] fix: read numbers with an exponent

1e5 and 1.5e-3 are numbers in JSON, but were refused.
---
 json/JSON.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/json/JSON.go b/json/JSON.go
index f767991..930302d 100644
--- a/json/JSON.go
+++ b/json/JSON.go
@@ -604,8 +604,14 @@ func parseJSONValue(key_value string, string_value string, list *([](*Value))) [
 			errors = append(errors, fmt.Errorf("error: value is not true, false, null or a number: '%s'", string_value))
 			return errors
 		} else {
+			mantissa_value := string_value
+			exponent_index := strings.IndexAny(string_value, "eE")
+			if exponent_index != -1 {
+				mantissa_value = string_value[:exponent_index]
+			}
+
 			var negative_number bool
-			negative_number_count := strings.Count(string_value, "-")
+			negative_number_count := strings.Count(mantissa_value, "-")
 			if negative_number_count == 1 {
 				negative_number = true
 				if !strings.HasPrefix(string_value, "-") {
@@ -618,7 +624,7 @@ func parseJSONValue(key_value string, string_value string, list *([](*Value))) [
 			}
 
 			var decimal_number bool
-			decimal_count := strings.Count(string_value, ".")
+			decimal_count := strings.Count(mantissa_value, ".")
 			if decimal_count == 1 {
 				decimal_number = true
 			} else if decimal_count == 0 {
@@ -631,7 +637,7 @@ func parseJSONValue(key_value string, string_value string, list *([](*Value))) [
 				return errors
 			}
 
-			if decimal_number {
+			if decimal_number || exponent_index != -1 {
 				data_type = "float64"
 				float64_temp, float64_temp_error := strconv.ParseFloat(string_value, 64)
 				if float64_temp_error != nil {
-- 
2.43.0


From 5812503fb89dbf8ec3fcdf982d611ce94f63c231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:31 +0000
Subject: [PATCH 08/24] fix: reading something else as a string reports an
 error instead of panicking

---
 json/Value.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/json/Value.go b/json/Value.go
index 819b5e0..1f262ab 100644
--- a/json/Value.go
+++ b/json/Value.go
@@ -564,7 +564,6 @@ func NewValue(v interface{}) (*Value) {
 			case "*string":
 				result = this().GetObject().(*string)
 			default:
-				panic("debug")
 				errors = append(errors, fmt.Errorf("error Value.GetString: type %s is not supported please implement for attribute", rep))
 			}
 		
-- 
2.43.0


From d3d6ffb9614e859391080f94d621ffd3bfbce15d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:33 +0000
Subject: [PATCH 09/24] fix: reading a large uint as a signed integer reports
 an error instead of wrapping

---
 json/Value.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/json/Value.go b/json/Value.go
index 1f262ab..41c6860 100644
--- a/json/Value.go
+++ b/json/Value.go
@@ -1123,10 +1123,18 @@ func NewValue(v interface{}) (*Value) {
 					temp_value = int64(x)
 				case "*uint":
 					x := this().GetObject().(*uint)
-					temp_value = int64(*x)
+					if uint64(*x) > 9223372036854775807 {
+						errors = append(errors, fmt.Errorf("%d is greater than 9223372036854775807", *x))
+					} else {
+						temp_value = int64(*x)
+					}
 				case "uint":
 					x := this().GetObject().(uint)
-					temp_value = int64(x)
+					if uint64(x) > 9223372036854775807 {
+						errors = append(errors, fmt.Errorf("%d is greater than 9223372036854775807", x))
+					} else {
+						temp_value = int64(x)
+					}
 				case "*string":
 					value, value_error := strconv.ParseInt(*(this().GetObject().(*string)), 10, 64)
 					if value_error != nil {
-- 
2.43.0


From 6e9716c93f3e486f9229adad29d25a39f38fb130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:53 +0000
Subject: [PATCH 10/24] fix: serialise floats exactly, and report those JSON
 can not express as errors

Floats were cut to six decimals, and not-a-number and infinities were
written as if they were JSON.
---
 json/JSON.go | 35 +++++++++++++++++++++++++++++++----
 1 file changed, 31 insertions(+), 4 deletions(-)

diff --git a/json/JSON.go b/json/JSON.go
index 930302d..ef9c84e 100644
--- a/json/JSON.go
+++ b/json/JSON.go
@@ -2,6 +2,7 @@ package json
 
 import (
 	"fmt"
+	"math"
 	"net/url"
 	"os/exec"
 	"strconv"
@@ -873,6 +874,20 @@ func escapeString(value string) string {
 	return result.String()
 }
 
+// writeFloat writes the shortest decimal number that denotes exactly the value
+func writeFloat(json *strings.Builder, value float64, bit_size int) error {
+	if math.IsNaN(value) || math.IsInf(value, 0) {
+		return fmt.Errorf("error: %f can not be written as json", value)
+	}
+
+	result := strconv.FormatFloat(value, 'f', -1, bit_size)
+	json.WriteString(result)
+	if !strings.Contains(result, ".") {
+		json.WriteString(".0")
+	}
+	return nil
+}
+
 func ConvertInterfaceValueToJSONStringValue(json *strings.Builder, value interface{}) []error {
 	var errors []error
 	if json == nil {
@@ -1075,13 +1090,25 @@ func ConvertInterfaceValueToJSONStringValue(json *strings.Builder, value interfa
 	case "int":
 		json.WriteString(strconv.FormatInt(int64(temp_value.(int)), 10))
 	case "*float64":
-		json.WriteString(fmt.Sprintf("%f", *(temp_value.(*float64))))
+		float_error := writeFloat(json, *(temp_value.(*float64)), 64)
+		if float_error != nil {
+			errors = append(errors, float_error)
+		}
 	case "float64":
-		json.WriteString(fmt.Sprintf("%f", (temp_value.(float64))))
+		float_error := writeFloat(json, (temp_value.(float64)), 64)
+		if float_error != nil {
+			errors = append(errors, float_error)
+		}
 	case "*float32":
-		json.WriteString(fmt.Sprintf("%f", *(temp_value.(*float32))))
+		float_error := writeFloat(json, float64(*(temp_value.(*float32))), 32)
+		if float_error != nil {
+			errors = append(errors, float_error)
+		}
 	case "float32":
-		json.WriteString(fmt.Sprintf("%f", (temp_value.(float32))))
+		float_error := writeFloat(json, float64((temp_value.(float32))), 32)
+		if float_error != nil {
+			errors = append(errors, float_error)
+		}
 	case "nil":
 		json.WriteString("null")
 	default:
-- 
2.43.0


From 08d942b9451411e2394ae13420e99e42d35a5a1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:21 +0000
Subject: [PATCH 11/24] fix: implement the accessors that were declared but
 never assigned

GetUInt, GetUIntValue, Map.GetBoolValue, the []int and []uint reads and
Array.GetArrayValue were nil, so calling them panicked.
---
 json/Array.go | 111 ++++++++++++++++++++++++++++++++++++++++++++++++++
 json/Map.go   |  40 ++++++++++++++++++
 json/Value.go |  29 +++++++++++++
 3 files changed, 180 insertions(+)

diff --git a/json/Array.go b/json/Array.go
index c542672..7b542e5 100644
--- a/json/Array.go
+++ b/json/Array.go
@@ -476,6 +476,33 @@ func NewArrayOfValues(a *[]interface{}) (*Array) {
 		
 			return value, nil
 		},
+		GetArrayOfInt: func() (*[](*int), []error) {
+			array_values := getValues()
+			if common.IsNil(array_values) {
+				return nil, nil
+			}
+
+			var errors []error
+			var result ([](*int))
+			for _, array_value := range *array_values {
+				if common.IsNil(array_value) {
+					result = append(result, nil)
+				} else {
+					int_value, int_value_errors := array_value.GetInt()
+					if int_value_errors != nil {
+						errors = append(errors, int_value_errors...)
+					} else {
+						result = append(result, int_value)
+					}
+				}
+			}
+
+			if len(errors) > 0 {
+				return nil, errors
+			}
+
+			return &result, nil
+		},
 		GetArrayOfInt8: func() (*[](*int8), []error) {
 			array_values := getValues()
 			if common.IsNil(array_values) {
@@ -584,6 +611,33 @@ func NewArrayOfValues(a *[]interface{}) (*Array) {
 			
 			return &result, nil
 		},
+		GetArrayOfUInt: func() (*[](*uint), []error) {
+			array_values := getValues()
+			if common.IsNil(array_values) {
+				return nil, nil
+			}
+
+			var errors []error
+			var result ([](*uint))
+			for _, array_value := range *array_values {
+				if common.IsNil(array_value) {
+					result = append(result, nil)
+				} else {
+					uint_value, uint_value_errors := array_value.GetUInt()
+					if uint_value_errors != nil {
+						errors = append(errors, uint_value_errors...)
+					} else {
+						result = append(result, uint_value)
+					}
+				}
+			}
+
+			if len(errors) > 0 {
+				return nil, errors
+			}
+
+			return &result, nil
+		},
 		GetArrayOfUInt8: func() (*[](*uint8), []error) {
 			array_values := getValues()
 			if common.IsNil(array_values) {
@@ -692,6 +746,33 @@ func NewArrayOfValues(a *[]interface{}) (*Array) {
 			
 			return &result, nil
 		},
+		GetArrayOfIntValue: func() ([](int), []error) {
+			array_values := getValues()
+			if common.IsNil(array_values) {
+				return nil, nil
+			}
+
+			var errors []error
+			var result ([](int))
+			for _, array_value := range *array_values {
+				if common.IsNil(array_value) {
+					errors = append(errors, fmt.Errorf("array contained a null value"))
+				} else {
+					int_value, int_value_errors := array_value.GetIntValue()
+					if int_value_errors != nil {
+						errors = append(errors, int_value_errors...)
+					} else {
+						result = append(result, int_value)
+					}
+				}
+			}
+
+			if len(errors) > 0 {
+				return nil, errors
+			}
+
+			return result, nil
+		},
 		GetArrayOfInt8Value: func() ([](int8), []error) {
 			array_values := getValues()
 			if common.IsNil(array_values) {
@@ -800,6 +881,33 @@ func NewArrayOfValues(a *[]interface{}) (*Array) {
 			
 			return result, nil
 		},
+		GetArrayOfUIntValue: func() ([](uint), []error) {
+			array_values := getValues()
+			if common.IsNil(array_values) {
+				return nil, nil
+			}
+
+			var errors []error
+			var result ([](uint))
+			for _, array_value := range *array_values {
+				if common.IsNil(array_value) {
+					errors = append(errors, fmt.Errorf("array contained a null value"))
+				} else {
+					uint_value, uint_value_errors := array_value.GetUIntValue()
+					if uint_value_errors != nil {
+						errors = append(errors, uint_value_errors...)
+					} else {
+						result = append(result, uint_value)
+					}
+				}
+			}
+
+			if len(errors) > 0 {
+				return nil, errors
+			}
+
+			return result, nil
+		},
 		GetArrayOfUInt8Value: func() ([]uint8, []error) {
 			array_values := getValues()
 			if common.IsNil(array_values) {
@@ -1130,6 +1238,9 @@ func NewArrayOfValues(a *[]interface{}) (*Array) {
 				return result, nil
 		},
 	}
+	created_array.GetArrayValue = func() (Array, []error) {
+		return created_array, nil
+	}
 	return &created_array
 }
 
diff --git a/json/Map.go b/json/Map.go
index 31c48ac..1c86a86 100644
--- a/json/Map.go
+++ b/json/Map.go
@@ -610,6 +610,15 @@ func NewMapOfValues(m *map[string]interface{}) *Map {
 		GetArrayValue: func(s string) (Array, []error) {
 			return getArrayValue(s)
 		},
+		GetArrayOfInt: func(s string) (*[]*int, []error) {
+			array, array_errors := getArray(s)
+			if array_errors != nil {
+				return nil, array_errors
+			} else if common.IsNil(array) {
+				return nil, nil
+			}
+			return array.GetArrayOfInt()
+		},
 		GetArrayOfInt8: func(s string) (*[]*int8, []error) {
 			array, array_errors := getArray(s)
 			if array_errors != nil {
@@ -646,6 +655,15 @@ func NewMapOfValues(m *map[string]interface{}) *Map {
 			}
 			return array.GetArrayOfInt64()
 		},
+		GetArrayOfUInt: func(s string) (*[]*uint, []error) {
+			array, array_errors := getArray(s)
+			if array_errors != nil {
+				return nil, array_errors
+			} else if common.IsNil(array) {
+				return nil, nil
+			}
+			return array.GetArrayOfUInt()
+		},
 		GetArrayOfUInt8: func(s string) (*[]*uint8, []error) {
 			array, array_errors := getArray(s)
 			if array_errors != nil {
@@ -823,6 +841,14 @@ func NewMapOfValues(m *map[string]interface{}) *Map {
 			}
 			return getInternalValue(s).GetBool()
 		},
+		GetBoolValue: func(s string) (bool, []error) {
+			if isValueNilForMap(s) {
+				var errors []error
+				errors = append(errors, fmt.Errorf("json.Map.GetBoolValue value is nil"))
+				return false, errors
+			}
+			return getInternalValue(s).GetBoolValue()
+		},
 		SetBool: func(s string, value *bool) {
 			set_map_value := NewValue(value)
 			setInternalValue(s, set_map_value)
@@ -976,6 +1002,20 @@ func NewMapOfValues(m *map[string]interface{}) *Map {
 			}
 			return getInternalValue(s).GetIntValue()
 		},
+		GetUInt: func(s string) (*uint, []error) {
+			if isValueNilForMap(s) {
+				return nil, nil
+			}
+			return getInternalValue(s).GetUInt()
+		},
+		GetUIntValue: func(s string) (uint, []error) {
+			if isValueNilForMap(s) {
+				var errors []error
+				errors = append(errors, fmt.Errorf("json.Map.GetUIntValue value is nil"))
+				return 0, errors
+			}
+			return getInternalValue(s).GetUIntValue()
+		},
 		SetInt: func(s string, value *int) {
 			set_map_value := NewValue(value)
 			setInternalValue(s, set_map_value)
diff --git a/json/Value.go b/json/Value.go
index 41c6860..39fe042 100644
--- a/json/Value.go
+++ b/json/Value.go
@@ -1846,6 +1846,35 @@ func NewValue(v interface{}) (*Value) {
 		
 			return result, nil
 		},
+		GetUInt: func() (*uint, []error) {
+			uint64_value, uint64_value_errors := this().GetUInt64()
+			if uint64_value_errors != nil {
+				return nil, uint64_value_errors
+			} else if uint64_value == nil {
+				return nil, nil
+			}
+
+			result := uint(*uint64_value)
+			if uint64(result) != *uint64_value {
+				var errors []error
+				errors = append(errors, fmt.Errorf("error: value is not in range of uint"))
+				return nil, errors
+			}
+
+			return &result, nil
+		},
+		GetUIntValue: func() (uint, []error) {
+			uint_value, uint_value_errors := this().GetUInt()
+			if uint_value_errors != nil {
+				return 0, uint_value_errors
+			} else if uint_value == nil {
+				var errors []error
+				errors = append(errors, fmt.Errorf("error: Value.GetUInt returned nil"))
+				return 0, errors
+			}
+
+			return *uint_value, nil
+		},
 		SetObject: func(value interface{}) () {
 			setObject(value)
 		},
-- 
2.43.0


From 1ab609e863048b14e37bfadde89b1fdc67e2dab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:50 +0000
Subject: [PATCH 12/24] fix: texts such as nil, <nil> and map[] are strings,
 not null

A value was taken for null when its text looked like that of nil, so such
strings disappeared from arrays and came out as null in serialised text.
---
 json/Array.go |  2 +-
 json/JSON.go  | 33 +++++++++++++++++++++++++++------
 json/Map.go   |  4 ++--
 json/Value.go | 31 ++++++++++++++++---------------
 4 files changed, 46 insertions(+), 24 deletions(-)

diff --git a/json/Array.go b/json/Array.go
index 7b542e5..32e8cf8 100644
--- a/json/Array.go
+++ b/json/Array.go
@@ -440,7 +440,7 @@ func NewArrayOfValues(a *[]interface{}) (*Array) {
 			value, value_errors := ((*a)[index]).GetStringValue()
 			if value_errors != nil {
 				errors = append(errors, fmt.Errorf("Array.GetStringValue has errors: %s", fmt.Sprintf("%s", value_errors)))
-			} else if common.IsNil(value) {
+			} else if isNil(value) {
 				errors = append(errors, fmt.Errorf("Array.GetStringValue value is nil"))
 			}
 		
diff --git a/json/JSON.go b/json/JSON.go
index ef9c84e..0f999a0 100644
--- a/json/JSON.go
+++ b/json/JSON.go
@@ -5,6 +5,7 @@ import (
 	"math"
 	"net/url"
 	"os/exec"
+	"reflect"
 	"strconv"
 	"strings"
 	"time"
@@ -28,6 +29,26 @@ func getTimeNow() *time.Time {
 	return &now
 }
 
+// isNil is common.IsNil, but a string or an error is not nil because its text looks like nil
+func isNil(object interface{}) bool {
+	switch object.(type) {
+	case string:
+		return false
+	case error:
+		value := reflect.ValueOf(object)
+		return value.Kind() == reflect.Ptr && value.IsNil()
+	default:
+		return common.IsNil(object)
+	}
+}
+
+func getType(object interface{}) string {
+	if isNil(object) {
+		return "nil"
+	}
+	return fmt.Sprintf("%T", object)
+}
+
 func Parse(s string) (*Map, []error) {
 	var errors []error
 	if s == "" {
@@ -895,12 +916,12 @@ func ConvertInterfaceValueToJSONStringValue(json *strings.Builder, value interfa
 		return errors
 	}
 
-	if common.IsNil(value) {
+	if isNil(value) {
 		json.WriteString("null")
 		return nil
 	}
 
-	rep := common.GetType(value)
+	rep := getType(value)
 	var temp_value interface{}
 	if rep == "json.Value" {
 		temp_value = (value.(Value)).GetObject()
@@ -910,7 +931,7 @@ func ConvertInterfaceValueToJSONStringValue(json *strings.Builder, value interfa
 		temp_value = value
 	}
 
-	rep = common.GetType(temp_value)
+	rep = getType(temp_value)
 	switch rep {
 	case "string":
 		temp_string := temp_value.(string)
@@ -1126,11 +1147,11 @@ func ConvertInterfaceValueToStringValue(value interface{}) (string, []error) {
 	var errors []error
 	var result string
 
-	if common.IsNil(value) {
+	if isNil(value) {
 		return "null", nil
 	}
 
-	rep := common.GetType(value)
+	rep := getType(value)
 	var temp_value interface{}
 	if rep == "json.Value" {
 		temp_value = (value.(Value)).GetObject()
@@ -1140,7 +1161,7 @@ func ConvertInterfaceValueToStringValue(value interface{}) (string, []error) {
 		temp_value = value
 	}
 
-	rep = common.GetType(temp_value)
+	rep = getType(temp_value)
 	switch rep {
 	case "string":
 		result = temp_value.(string)
diff --git a/json/Map.go b/json/Map.go
index 1c86a86..79b58eb 100644
--- a/json/Map.go
+++ b/json/Map.go
@@ -223,12 +223,12 @@ func NewMapOfValues(m *map[string]interface{}) *Map {
 		type_of := common.GetType(value)
 		if type_of == "*json.Value" {
 			temp_object := value.GetObject()
-			if common.IsNil(temp_object) {
+			if isNil(temp_object) {
 				return true
 			}
 		} else if type_of == "json.Value" {
 			temp_object := value.GetObject()
-			if common.IsNil(temp_object) {
+			if isNil(temp_object) {
 				return true
 			}
 		}
diff --git a/json/Value.go b/json/Value.go
index 39fe042..104079b 100644
--- a/json/Value.go
+++ b/json/Value.go
@@ -442,7 +442,7 @@ func NewValue(v interface{}) (*Value) {
 		
 			var errors []error
 			var result (func(string) []error)
-			rep := common.GetType(getObject())
+			rep := getType(getObject())
 			switch rep {
 			case "func(string) []error":
 				result = (this().GetObject()).(func(string) []error)
@@ -466,7 +466,7 @@ func NewValue(v interface{}) (*Value) {
 			var errors []error
 			var result []error
 			
-			rep := common.GetType(getObject())
+			rep := getType(getObject())
 			switch rep {
 			case "*[]error":
 				result = *(this().GetObject().(*[]error))
@@ -520,7 +520,7 @@ func NewValue(v interface{}) (*Value) {
 			var errors []error
 			var result *Array
 		
-			rep := common.GetType(getObject())
+			rep := getType(getObject())
 			switch rep {
 			case "*json.Array":
 				result = this().GetObject().(*Array)
@@ -556,7 +556,7 @@ func NewValue(v interface{}) (*Value) {
 		
 			var errors []error
 			var result *string
-			rep := common.GetType(getObject())
+			rep := getType(getObject())
 			switch rep {
 			case "string":
 				value := this().GetObject().(string)
@@ -607,7 +607,8 @@ func NewValue(v interface{}) (*Value) {
 			return common.IsNumber(this().GetObject())
 		},
 		IsString: func() (bool) {
-			return common.IsString(this().GetObject())
+			_, is_string := this().GetObject().(string)
+			return is_string || common.IsString(this().GetObject())
 		},
 		IsValueEqualToString: func(s *string) (bool) {
 			this_nil := this().IsNil()
@@ -630,7 +631,7 @@ func NewValue(v interface{}) (*Value) {
 		},
 		IsValueEqualToStringValue: func(s string) (bool) {
 			this_nil := this().IsNil()
-			compare_nil := common.IsNil(s)
+			compare_nil := isNil(s)
 			
 			if this_nil && compare_nil {
 				return true
@@ -649,14 +650,14 @@ func NewValue(v interface{}) (*Value) {
 		},
 		IsNil: func() bool {
 			temp_value := this().GetObject()
-			if common.IsNil(temp_value) {
+			if isNil(temp_value) {
 				return true
 			}
 			
 			return !(common.IsValue(temp_value) ||
 					common.IsNumber(temp_value) || 
 					common.IsBool(temp_value) || 
-					common.IsString(temp_value) || 
+					this().IsString() || 
 					common.IsArray(temp_value) || 
 					common.IsMap(temp_value) ||
 					common.IsFunc(temp_value))
@@ -674,7 +675,7 @@ func NewValue(v interface{}) (*Value) {
 		
 			var errors []error
 			var result *float64
-			rep := common.GetType(getObject())
+			rep := getType(getObject())
 			switch rep {
 			case "float64":
 				value := this().GetObject().(float64)
@@ -888,7 +889,7 @@ func NewValue(v interface{}) (*Value) {
 		
 			var errors []error
 			var result *string
-			rep := common.GetType(getObject())
+			rep := getType(getObject())
 			switch rep {
 			case "string":
 				value := this().GetObject().(string)
@@ -930,7 +931,7 @@ func NewValue(v interface{}) (*Value) {
 			var result *bool
 			var errors []error
 		
-			rep := common.GetType(getObject())
+			rep := getType(getObject())
 			switch rep {
 			case "bool":
 				value := this().GetObject().(bool)
@@ -980,7 +981,7 @@ func NewValue(v interface{}) (*Value) {
 			}
 		
 			var result bool
-			rep := common.GetType(getObject())
+			rep := getType(getObject())
 			switch rep {
 			case "bool":
 				result = this().GetObject().(bool)
@@ -1029,7 +1030,7 @@ func NewValue(v interface{}) (*Value) {
 				return nil, nil
 			}
 		
-			rep := common.GetType(getObject())
+			rep := getType(getObject())
 			switch rep {
 				case "json.Value":
 					string_value, convert_errors := ConvertInterfaceValueToStringValue(this().GetObject().(Value))
@@ -1227,7 +1228,7 @@ func NewValue(v interface{}) (*Value) {
 			}
 
 			var uint64_value uint64
-			rep := common.GetType(getObject())
+			rep := getType(getObject())
 			switch rep {
 			case "*int64":
 				x := *(this().GetObject().(*int64))
@@ -1391,7 +1392,7 @@ func NewValue(v interface{}) (*Value) {
 			setObject(value)
 		},
 		GetType: func() string {
-			return common.GetType(this().GetObject())
+			return getType(this().GetObject())
 		},
 		IsInteger: func() bool {
 			return common.IsInteger(this().GetObject())
-- 
2.43.0


From 86bbca19435e751e4e1dc115caad70a325901350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:16 +0000
Subject: [PATCH 13/24] fix: errors, times and functions are not null

Value.IsNil counted everything but scalars and containers as null, so
GetErrors, GetTime and GetFunc never returned what had been stored.
---
 json/Value.go | 13 +------------
 1 file changed, 1 insertion(+), 12 deletions(-)

diff --git a/json/Value.go b/json/Value.go
index 104079b..3dbe295 100644
--- a/json/Value.go
+++ b/json/Value.go
@@ -649,18 +649,7 @@ func NewValue(v interface{}) (*Value) {
 			return value == s			
 		},
 		IsNil: func() bool {
-			temp_value := this().GetObject()
-			if isNil(temp_value) {
-				return true
-			}
-			
-			return !(common.IsValue(temp_value) ||
-					common.IsNumber(temp_value) || 
-					common.IsBool(temp_value) || 
-					this().IsString() || 
-					common.IsArray(temp_value) || 
-					common.IsMap(temp_value) ||
-					common.IsFunc(temp_value))
+			return isNil(this().GetObject())
 		},
 		IsBool: func() bool {
 			return common.IsBool(this().GetObject())
-- 
2.43.0


From 95b71ed0dc9c95e46c4c3b73730e9b87e7da39ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:18 +0000
Subject: [PATCH 14/24] fix: reading a text that is not a time, or null, as a
 time reports an error

GetTime panicked on every other string, GetTimeValue on a nil pointer.
---
 json/Value.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/json/Value.go b/json/Value.go
index 3dbe295..f109e79 100644
--- a/json/Value.go
+++ b/json/Value.go
@@ -152,6 +152,14 @@ func NewValue(v interface{}) (*Value) {
 		internal_value = value
 	}
 
+	// common.GetTime panics on a string it can not read, but not on a pointer to one
+	getTimeObject := func() interface{} {
+		if string_value, is_string := internal_value.(string); is_string {
+			return &string_value
+		}
+		return internal_value
+	}
+
 	clone := func() (*Value, []error) {
 		var errors []error
 		temp_value := this()
@@ -1356,20 +1364,21 @@ func NewValue(v interface{}) (*Value) {
 				return nil, nil
 			}
 		
-			return common.GetTimeWithDecimalPlaces(this().GetObject(), decimal_places)
+			return common.GetTimeWithDecimalPlaces(getTimeObject(), decimal_places)
 		},
 		GetTime: func() (*time.Time, []error) {
 			if this().IsNil() {
 				return nil, nil
 			}
 		
-			return common.GetTime(this().GetObject())
+			return common.GetTime(getTimeObject())
 		},
 		GetTimeValue: func() (time.Time, []error) {
-			temp_time, temp_time_errors := common.GetTime(this().GetObject())
+			temp_time, temp_time_errors := this().GetTime()
 			if temp_time_errors != nil {
 				return (*common.GetTimeZero()), temp_time_errors
 			} else if common.IsNil(temp_time) {
+				temp_time_errors = append(temp_time_errors, fmt.Errorf("error: Value.GetTimeValue is nil"))
 				return (*common.GetTimeZero()), temp_time_errors
 			}
 			return *temp_time, nil
-- 
2.43.0


From 69d583a860009f4de362b82ac36229c11c60cd3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:50 +0000
Subject: [PATCH 15/24] fix: cloning keeps error messages verbatim and error
 lists and times as they are

Messages were used as format strings, a pointer to an error list could not
be cloned, and a time became a pointer to a time.
---
 json/Value.go | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/json/Value.go b/json/Value.go
index f109e79..c410103 100644
--- a/json/Value.go
+++ b/json/Value.go
@@ -210,38 +210,46 @@ func NewValue(v interface{}) (*Value) {
 					cloned_value.SetString(&result)
 				case "error":
 					result := fmt.Sprintf("%s",  temp_object.(error).Error())
-					cloned_value.SetErrorValue(fmt.Errorf(result))
+					cloned_value.SetErrorValue(fmt.Errorf("%s", result))
 				case "[]error": 
 					result := temp_object.([]error)
 					var result_array []error
 					for _, result_array_value := range result {
-						e := fmt.Errorf(fmt.Sprintf("%s", result_array_value.Error()))
+						e := fmt.Errorf("%s", result_array_value.Error())
 						result_array = append(result_array, e)
 					}	
 					cloned_value.SetErrorsValue(result_array)				
+				case "*[]error":
+					result := *(temp_object.(*[]error))
+					var result_array []error
+					for _, result_array_value := range result {
+						e := fmt.Errorf("%s", result_array_value.Error())
+						result_array = append(result_array, e)
+					}
+					cloned_value.SetErrors(&result_array)
 				case "*error":
 					result := fmt.Sprintf("%s", (*(temp_object.(*error))).Error())
-					cloned_error := fmt.Errorf(result)
+					cloned_error := fmt.Errorf("%s", result)
 					cloned_value.SetError(&cloned_error)
 				case "*url.Error":
 					result := fmt.Sprintf("%s", (*(temp_object.(*url.Error))).Error()) 
-					cloned_error := fmt.Errorf(result)
+					cloned_error := fmt.Errorf("%s", result)
 					cloned_value.SetError(&cloned_error)
 				case "exec.ExitError":
 					result := fmt.Sprintf("%s", temp_object.(exec.ExitError))
-					cloned_error := fmt.Errorf(result)
+					cloned_error := fmt.Errorf("%s", result)
 					cloned_value.SetErrorValue(cloned_error)
 				case "*exec.ExitError":
 					result := fmt.Sprintf("%s", *(temp_object.(*exec.ExitError)))
-					cloned_error := fmt.Errorf(result)
+					cloned_error := fmt.Errorf("%s", result)
 					cloned_value.SetError(&cloned_error)
 				case "errors.errorString":
 					result := fmt.Sprintf("%s", temp_object)
-					cloned_error := fmt.Errorf(result)
+					cloned_error := fmt.Errorf("%s", result)
 					cloned_value.SetErrorValue(cloned_error)
 				case "*errors.errorString":
 					result := fmt.Sprintf("%s", temp_object)
-					cloned_error := fmt.Errorf(result)
+					cloned_error := fmt.Errorf("%s", result)
 					cloned_value.SetError(&cloned_error)
 				case "bool":
 					if temp_object.(bool) {
@@ -275,7 +283,7 @@ func NewValue(v interface{}) (*Value) {
 					} else if common.IsNil(cloned_time) {
 						errors = append(errors, fmt.Errorf("Value.Clone time is nil"))
 					} else {
-						cloned_value.SetTime(cloned_time)
+						cloned_value.SetTimeValue(*cloned_time)
 					}
 				case "*uint64":
 					result := *(temp_object.(*uint64))
-- 
2.43.0


From d854446179c4f0564a785a4dc085fa94828c28af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:52 +0000
Subject: [PATCH 16/24] fix: cloning and reading an array with a nil element
 does not panic

---
 json/Array.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/json/Array.go b/json/Array.go
index 32e8cf8..3399987 100644
--- a/json/Array.go
+++ b/json/Array.go
@@ -123,7 +123,9 @@ func NewArrayOfValues(a *[]interface{}) (*Array) {
 		temp_values := getValues()
 		cloned := NewArray()
 		for _, temp_value := range *temp_values {
-			if temp_value.IsMap() {
+			if temp_value == nil {
+				cloned.AppendNil()
+			} else if temp_value.IsMap() {
 				temp_map, temp_map_errors := temp_value.GetMap()
 				if temp_map_errors != nil {
 					errors = append(errors, temp_map_errors...)
@@ -437,6 +439,11 @@ func NewArrayOfValues(a *[]interface{}) (*Array) {
 				return "", errors
 			}
 		
+			if (*a)[index] == nil {
+				errors = append(errors, fmt.Errorf("Array.GetStringValue value is nil"))
+				return "", errors
+			}
+
 			value, value_errors := ((*a)[index]).GetStringValue()
 			if value_errors != nil {
 				errors = append(errors, fmt.Errorf("Array.GetStringValue has errors: %s", fmt.Sprintf("%s", value_errors)))
@@ -463,6 +470,11 @@ func NewArrayOfValues(a *[]interface{}) (*Array) {
 				return nil, errors
 			}
 		
+			if (*a)[index] == nil {
+				errors = append(errors, fmt.Errorf("Array.GetMap value is nil"))
+				return nil, errors
+			}
+
 			value, value_errors := ((*a)[index]).GetMap()
 			if value_errors != nil {
 				errors = append(errors, fmt.Errorf("Array.GetStringValue has errors: %s", fmt.Sprintf("%s", value_errors)))
-- 
2.43.0


From eb3ddd84182b2f4a58c1e4824ac3a33bb0315d81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:54 +0000
Subject: [PATCH 17/24] fix: a map made of the single key value with a nil
 value is not empty

NewMapOfValues took such a map for nil.
---
 json/Map.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/json/Map.go b/json/Map.go
index 79b58eb..4ca9131 100644
--- a/json/Map.go
+++ b/json/Map.go
@@ -413,7 +413,7 @@ func NewMapOfValues(m *map[string]interface{}) *Map {
 		return cloned, nil
 	}
 
-	if !common.IsNil(m) {
+	if m != nil {
 		current_type := ""
 		for key, value := range *m {
 			current_type = common.GetType(value)
-- 
2.43.0


From e08d78956726b07502e28b17084c171da659e48e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:26 +0000
Subject: [PATCH 18/24] fix: Map.GetArrayOfBoolValue reports a missing array as
 an error

as the other accessors that return values do.
---
 json/Map.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/json/Map.go b/json/Map.go
index 4ca9131..3c35cd2 100644
--- a/json/Map.go
+++ b/json/Map.go
@@ -751,11 +751,9 @@ func NewMapOfValues(m *map[string]interface{}) *Map {
 			return array.GetArrayOfBool()
 		},
 		GetArrayOfBoolValue: func(s string) ([]bool, []error) {
-			array, array_errors := getArray(s)
+			array, array_errors := getArrayValue(s)
 			if array_errors != nil {
 				return nil, array_errors
-			} else if common.IsNil(array) {
-				return nil, nil
 			}
 			return array.GetArrayOfBoolValue()
 		},
-- 
2.43.0


From 0658f8f56dcb8ab23974ecab86d8094dcdb11f96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:49 +0000
Subject: [PATCH 19/24] fix: refuse an escaped quote outside of a string
 literal

It was taken for an ordinary character of an unquoted value, which could
then pass for a string.
---
 json/JSON.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/json/JSON.go b/json/JSON.go
index 0f999a0..cbfd053 100644
--- a/json/JSON.go
+++ b/json/JSON.go
@@ -394,6 +394,11 @@ func parseJSONMap(json_string string, index *uint64, mode *string, metrics *Map)
 		}
 
 		if !parsing_string {
+			if value == "\"" && previous_value == "\\" {
+				errors = append(errors, fmt.Errorf("error: unexpected escaped quote at index: %d", i))
+				return nil, errors
+			}
+
 			if (value == "{" || value == "[") && strings.Trim(temp_value_r, " \n\r\t\\") != "" {
 				errors = append(errors, fmt.Errorf("error: unexpected %s at index: %d", value, i))
 				return nil, errors
-- 
2.43.0


From 503b339ddac1dc6b24d30acfc8ba205a5f6cef3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:18 +0000
Subject: [PATCH 20/24] fix: a nil error in a list or behind a pointer no
 longer panics when cloned or converted

---
 json/JSON.go  | 6 +++++-
 json/Value.go | 8 ++++++++
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/json/JSON.go b/json/JSON.go
index cbfd053..587330b 100644
--- a/json/JSON.go
+++ b/json/JSON.go
@@ -29,7 +29,8 @@ func getTimeNow() *time.Time {
 	return &now
 }
 
-// isNil is common.IsNil, but a string or an error is not nil because its text looks like nil
+// isNil is common.IsNil, but a string or an error is not nil because its text looks like nil,
+// and a pointer to an error that is nil is
 func isNil(object interface{}) bool {
 	switch object.(type) {
 	case string:
@@ -37,6 +38,9 @@ func isNil(object interface{}) bool {
 	case error:
 		value := reflect.ValueOf(object)
 		return value.Kind() == reflect.Ptr && value.IsNil()
+	case *error:
+		pointer := object.(*error)
+		return pointer == nil || isNil(*pointer)
 	default:
 		return common.IsNil(object)
 	}
diff --git a/json/Value.go b/json/Value.go
index c410103..fc4ac95 100644
--- a/json/Value.go
+++ b/json/Value.go
@@ -215,6 +215,10 @@ func NewValue(v interface{}) (*Value) {
 					result := temp_object.([]error)
 					var result_array []error
 					for _, result_array_value := range result {
+						if isNil(result_array_value) {
+							result_array = append(result_array, nil)
+							continue
+						}
 						e := fmt.Errorf("%s", result_array_value.Error())
 						result_array = append(result_array, e)
 					}	
@@ -223,6 +227,10 @@ func NewValue(v interface{}) (*Value) {
 					result := *(temp_object.(*[]error))
 					var result_array []error
 					for _, result_array_value := range result {
+						if isNil(result_array_value) {
+							result_array = append(result_array, nil)
+							continue
+						}
 						e := fmt.Errorf("%s", result_array_value.Error())
 						result_array = append(result_array, e)
 					}
-- 
2.43.0


From 62c39b984d87e948887cb8841b51eb31f476694b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:18 +0000
Subject: [PATCH 21/24] fix: errors of any type can be cloned, not only those
 of the errors package

---
 json/Value.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/json/Value.go b/json/Value.go
index fc4ac95..7aaa8e2 100644
--- a/json/Value.go
+++ b/json/Value.go
@@ -372,7 +372,11 @@ func NewValue(v interface{}) (*Value) {
 					result := "*func(string) []error"
 					cloned_value.SetStringValue(result)
 				default:
-					errors = append(errors, fmt.Errorf("error: Value.Clone: type %s is not supported please implement", rep))
+					if error_value, is_error := temp_object.(error); is_error {
+						cloned_value.SetErrorValue(fmt.Errorf("%s", error_value.Error()))
+					} else {
+						errors = append(errors, fmt.Errorf("error: Value.Clone: type %s is not supported please implement", rep))
+					}
 			}
 			
 		}
-- 
2.43.0


From 2eb17bcbf403c2263f74ce77589a4390563f52bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:41 +0000
Subject: [PATCH 22/24] fix: the text of a value that holds another value is
 that of the inner one

---
 json/JSON.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/json/JSON.go b/json/JSON.go
index 587330b..629a363 100644
--- a/json/JSON.go
+++ b/json/JSON.go
@@ -1254,10 +1254,8 @@ func ConvertInterfaceValueToStringValue(value interface{}) (string, []error) {
 		result = fmt.Sprintf("%f", *(temp_value.(*float32)))
 	case "float32":
 		result = fmt.Sprintf("%f", (temp_value.(float32)))
-	case "json.Value":
-		result = fmt.Sprintf("%s", (temp_value.(Value)).GetObject())
-	case "*json.Value":
-		result = fmt.Sprintf("%s", (*(temp_value.(*Value))).GetObject())
+	case "json.Value", "*json.Value":
+		return ConvertInterfaceValueToStringValue(temp_value)
 	default:
 		errors = append(errors, fmt.Errorf("error: JSON.ConvertInterfaceValueToStringValue: type %s is not supported please implement", rep))
 	}
-- 
2.43.0


From 6c87e74973e0481f662f391c90de06341d884cd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:41 +0000
Subject: [PATCH 23/24] fix: lists of strings can be cloned

---
 json/Value.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/json/Value.go b/json/Value.go
index 7aaa8e2..6e96c16 100644
--- a/json/Value.go
+++ b/json/Value.go
@@ -235,6 +235,11 @@ func NewValue(v interface{}) (*Value) {
 						result_array = append(result_array, e)
 					}
 					cloned_value.SetErrors(&result_array)
+				case "[]string":
+					cloned_value.SetObject(append([]string{}, temp_object.([]string)...))
+				case "*[]string":
+					result_array := append([]string{}, *(temp_object.(*[]string))...)
+					cloned_value.SetObject(&result_array)
 				case "*error":
 					result := fmt.Sprintf("%s", (*(temp_object.(*error))).Error())
 					cloned_error := fmt.Errorf("%s", result)
-- 
2.43.0


From d8a16e7a429a62eb071bd37640903e4600b3bb96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:57 +0000
Subject: [PATCH 24/24] fix: the keys a map gives out are a list of the
 caller's own

---
 json/Map.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/json/Map.go b/json/Map.go
index 3c35cd2..8a49120 100644
--- a/json/Map.go
+++ b/json/Map.go
@@ -568,7 +568,7 @@ func NewMapOfValues(m *map[string]interface{}) *Map {
 			return toJSONString(json_payload_builder)
 		},
 		GetKeys: func() ([]string) {
-			return getKeys()
+			return append([]string{}, getKeys()...)
 		},
 		SetArray: func(s string, array *Array) {
 			set_map_value := NewValue(array)
-- 
2.43.0

