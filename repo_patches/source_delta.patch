From c77c706ef40b8a546dfb122c1c9f1e515f4eecc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:04 +0000
Subject: [PATCH 01/22] fix: keep multi-byte characters intact while parsing

---
 json/JSON.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/json/JSON.go b/json/JSON.go
index 475ee08..aab923a 100644
--- a/json/JSON.go
+++ b/json/JSON.go
@@ -161,9 +161,9 @@ func parseJSONMap(json_string string, index *uint64, mode *string, metrics *Map)
 		i := *index
 		previous_value := ""
 		if *index > 0 {
-			previous_value = string(json_string[i-1])
+			previous_value = json_string[i-1 : i]
 		}
-		value := string(json_string[i])
+		value := json_string[i : i+1]
 		rune_values := []rune(value)
 		rune_value := rune_values[0]
 
-- 
2.43.0


From 48556a2a47e851171203b06abeb535ddac457a51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:13 +0000
Subject: [PATCH 02/22] fix: reject content after the brace that closes the
 document instead of panicking

---
 json/JSON.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/json/JSON.go b/json/JSON.go
index aab923a..4459bf6 100644
--- a/json/JSON.go
+++ b/json/JSON.go
@@ -167,6 +167,11 @@ func parseJSONMap(json_string string, index *uint64, mode *string, metrics *Map)
 		rune_values := []rune(value)
 		rune_value := rune_values[0]
 
+		if parent_map != nil && len(*list) == 0 {
+			errors = append(errors, fmt.Errorf("error: unexpected character '%s' after the end of the document", value))
+			return nil, errors
+		}
+
 		if !parsing_string {
 			if value == "\"" && previous_value != "\\" {
 				parsing_string = true
-- 
2.43.0


From 1eea29538dd60c76b77cc69591b07bb156c20b4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:15 +0000
Subject: [PATCH 03/22] fix: reject documents whose braces and brackets are not
 properly nested

---
 json/JSON.go | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/json/JSON.go b/json/JSON.go
index 4459bf6..e8c5011 100644
--- a/json/JSON.go
+++ b/json/JSON.go
@@ -276,6 +276,9 @@ func parseJSONMap(json_string string, index *uint64, mode *string, metrics *Map)
 			} else if value == "\"" && previous_value != "\\" {
 				current_mode = mode_looking_for_key_name
 				temp_key_r += value
+			} else if value == "{" || value == "[" || value == "]" {
+				errors = append(errors, fmt.Errorf("error: unexpected %s where a key was expected", value))
+				return nil, errors
 			}
 			*index++
 			continue
@@ -293,12 +296,25 @@ func parseJSONMap(json_string string, index *uint64, mode *string, metrics *Map)
 		if current_mode == mode_looking_for_key_name_column {
 			if string(value) == ":" {
 				current_mode = mode_looking_for_next_value_or_end
+			} else if value == "{" || value == "}" || value == "[" || value == "]" {
+				errors = append(errors, fmt.Errorf("error: unexpected %s after a key", value))
+				return nil, errors
 			}
 			*index++
 			continue
 		}
 
 		if !parsing_string {
+			if value == "}" && !((*list)[len(*list)-1]).IsMap() {
+				errors = append(errors, fmt.Errorf("error: found } while an array is open"))
+				return nil, errors
+			}
+
+			if value == "]" && !((*list)[len(*list)-1]).IsArray() {
+				errors = append(errors, fmt.Errorf("error: found ] while a map is open"))
+				return nil, errors
+			}
+
 			if value == "{" {
 				new_map := NewMapValue()
 				new_map_value := NewValue(new_map)
@@ -444,6 +460,10 @@ func parseJSONMap(json_string string, index *uint64, mode *string, metrics *Map)
 		*index++
 	}
 
+	if len(*list) > 0 {
+		errors = append(errors, fmt.Errorf("error: %d maps or arrays are not closed", len(*list)))
+	}
+
 	if len(errors) > 0 {
 		return nil, errors
 	}
-- 
2.43.0


From a253825a3bacf8cbe7df9e8e94df3d34736f95e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:55 +0000
Subject: [PATCH 04/22] fix: reject a lone quote as a value instead of
 panicking

---
 json/JSON.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/json/JSON.go b/json/JSON.go
index e8c5011..d0aa42a 100644
--- a/json/JSON.go
+++ b/json/JSON.go
@@ -126,7 +126,7 @@ func Parse(s string) (*Map, []error) {
 
 func unquote_key_value(key string) (string, []error) {
 	var errors []error
-	if strings.HasPrefix(key, "\"") && strings.HasSuffix(key, "\"") {
+	if len(key) >= 2 && strings.HasPrefix(key, "\"") && strings.HasSuffix(key, "\"") {
 		key = (key)[1:(len(key) - 1)]
 	} else {
 		errors = append(errors, fmt.Errorf("error: key does not start with  \" or end with \""))
@@ -493,7 +493,7 @@ func parseJSONValue(key_value string, string_value string, list *([](*Value))) [
 	string_value = strings.Replace(string_value, "\\\"", "\"", -1)
 
 	if ((*list)[len(*list)-1]).IsMap() {
-		if strings.HasPrefix(key_value, "\"") && strings.HasSuffix(key_value, "\"") {
+		if len(key_value) >= 2 && strings.HasPrefix(key_value, "\"") && strings.HasSuffix(key_value, "\"") {
 			dequoted_value := (key_value)[1:(len(key_value) - 1)]
 			key_value = dequoted_value
 		} else {
@@ -502,7 +502,7 @@ func parseJSONValue(key_value string, string_value string, list *([](*Value))) [
 	}
 
 	if strings.Contains(string_value, "\"") {
-		if strings.HasPrefix(string_value, "\"") && strings.HasSuffix(string_value, "\"") {
+		if len(string_value) >= 2 && strings.HasPrefix(string_value, "\"") && strings.HasSuffix(string_value, "\"") {
 			data_type = "string"
 			dequoted_value := (string_value)[1:(len(string_value) - 1)]
 			string_value = dequoted_value
-- 
2.43.0


From 964d4f09ff944ccf8fa5e25ebfc980a673b314fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:57 +0000
Subject: [PATCH 05/22] fix: decode and write string escapes as json defines
 them

---
 json/JSON.go | 132 ++++++++++++++++++++++++++++++++++++++++++++-------
 json/Map.go  |   6 +--
 2 files changed, 117 insertions(+), 21 deletions(-)

diff --git a/json/JSON.go b/json/JSON.go
index d0aa42a..7836ac6 100644
--- a/json/JSON.go
+++ b/json/JSON.go
@@ -7,6 +7,8 @@ import (
 	"strconv"
 	"strings"
 	"time"
+	"unicode/utf16"
+	"unicode/utf8"
 
 	common "github.com/matehaxor03/holistic_common/common"
 )
@@ -136,7 +138,104 @@ func unquote_key_value(key string) (string, []error) {
 		return "", errors
 	}
 
-	return key, nil
+	return unescapeString(key), nil
+}
+
+// isEscapedBackslash reports whether the backslash in front of index is itself
+// escaped, so that it does not escape the character at index
+func isEscapedBackslash(value string, index uint64) bool {
+	count := 0
+	for index > 0 && value[index-1] == '\\' {
+		count++
+		index--
+	}
+	return count > 0 && count%2 == 0
+}
+
+func parseHexRune(value string) (rune, bool) {
+	if len(value) < 4 {
+		return 0, false
+	}
+
+	code, code_error := strconv.ParseUint(value[:4], 16, 16)
+	if code_error != nil {
+		return 0, false
+	}
+	return rune(code), true
+}
+
+// unescapeString replaces the escape sequences of a json string by the characters
+// they stand for, a sequence that is not known to json is kept as it is
+func unescapeString(value string) string {
+	if !strings.Contains(value, "\\") {
+		return value
+	}
+
+	var result strings.Builder
+	for i := 0; i < len(value); i++ {
+		if value[i] != '\\' || i+1 == len(value) {
+			result.WriteByte(value[i])
+			continue
+		}
+
+		i++
+		switch value[i] {
+		case '"', '\\', '/':
+			result.WriteByte(value[i])
+		case 'b':
+			result.WriteByte('\b')
+		case 'f':
+			result.WriteByte('\f')
+		case 'n':
+			result.WriteByte('\n')
+		case 'r':
+			result.WriteByte('\r')
+		case 't':
+			result.WriteByte('\t')
+		case 'u':
+			code, found := parseHexRune(value[i+1:])
+			if !found {
+				result.WriteString("\\u")
+				continue
+			}
+			i += 4
+			if utf16.IsSurrogate(code) && strings.HasPrefix(value[i+1:], "\\u") {
+				low_code, low_found := parseHexRune(value[i+3:])
+				if decoded := utf16.DecodeRune(code, low_code); low_found && decoded != utf8.RuneError {
+					code = decoded
+					i += 6
+				}
+			}
+			result.WriteRune(code)
+		default:
+			result.WriteByte('\\')
+			result.WriteByte(value[i])
+		}
+	}
+	return result.String()
+}
+
+// escapeString escapes backslashes and control characters for json, quotes are left to the caller
+func escapeString(value string) string {
+	var result strings.Builder
+	for i := 0; i < len(value); i++ {
+		character := value[i]
+		switch {
+		case character == '\\':
+			result.WriteString("\\\\")
+		case character == '\n':
+			result.WriteString("\\n")
+		case character == '\r':
+			result.WriteString("\\r")
+		case character == '\t':
+			result.WriteString("\\t")
+		case character < 0x20:
+			result.WriteString(fmt.Sprintf("\\u%04x", character))
+		default:
+			result.WriteByte(character)
+		}
+	}
+	return result.String()
 }
 
 func parseJSONMap(json_string string, index *uint64, mode *string, metrics *Map) (*Map, []error) {
@@ -167,6 +266,10 @@ func parseJSONMap(json_string string, index *uint64, mode *string, metrics *Map)
 		rune_values := []rune(value)
 		rune_value := rune_values[0]
 
+		if parsing_string && value == "\"" && isEscapedBackslash(json_string, i) {
+			previous_value = ""
+		}
+
 		if parent_map != nil && len(*list) == 0 {
 			errors = append(errors, fmt.Errorf("error: unexpected character '%s' after the end of the document", value))
 			return nil, errors
@@ -489,13 +592,10 @@ func parseJSONValue(key_value string, string_value string, list *([](*Value))) [
 	key_value = strings.TrimSpace(key_value)
 	string_value = strings.TrimSpace(string_value)
 
-	key_value = strings.Replace(key_value, "\\\"", "\"", -1)
-	string_value = strings.Replace(string_value, "\\\"", "\"", -1)
-
 	if ((*list)[len(*list)-1]).IsMap() {
 		if len(key_value) >= 2 && strings.HasPrefix(key_value, "\"") && strings.HasSuffix(key_value, "\"") {
 			dequoted_value := (key_value)[1:(len(key_value) - 1)]
-			key_value = dequoted_value
+			key_value = unescapeString(dequoted_value)
 		} else {
 			errors = append(errors, fmt.Errorf("error: key does not start with  \" and/or end with \" key: '%s'", key_value))
 		}
@@ -505,7 +605,7 @@ func parseJSONValue(key_value string, string_value string, list *([](*Value))) [
 		if len(string_value) >= 2 && strings.HasPrefix(string_value, "\"") && strings.HasSuffix(string_value, "\"") {
 			data_type = "string"
 			dequoted_value := (string_value)[1:(len(string_value) - 1)]
-			string_value = dequoted_value
+			string_value = unescapeString(dequoted_value)
 		} else {
 			errors = append(errors, fmt.Errorf("error: value does not start with  \" and/or end with \" value: '%s'", string_value))
 		}
@@ -819,40 +919,40 @@ func ConvertInterfaceValueToJSONStringValue(json *strings.Builder, value interfa
 		temp_string := temp_value.(string)
 		clone_string := common.CloneString(&temp_string)
 		json.WriteString("\"")
-		json.WriteString(strings.ReplaceAll(*clone_string, "\"", "\\\""))
+		json.WriteString(strings.ReplaceAll(escapeString(*clone_string), "\"", "\\\""))
 		json.WriteString("\"")
 	case "*string":
 		clone_string := common.CloneString(temp_value.(*string))
 		json.WriteString("\"")
-		json.WriteString(strings.ReplaceAll(*clone_string, "\"", "\\\""))
+		json.WriteString(strings.ReplaceAll(escapeString(*clone_string), "\"", "\\\""))
 		json.WriteString("\"")
 	case "error":
 		json.WriteString("\"")
-		json.WriteString(strings.ReplaceAll(fmt.Sprintf("%s", temp_value.(error)), "\"", "\\\""))
+		json.WriteString(strings.ReplaceAll(escapeString(fmt.Sprintf("%s", temp_value.(error))), "\"", "\\\""))
 		json.WriteString("\"")
 	case "*error":
 		json.WriteString("\"")
-		json.WriteString(strings.ReplaceAll(fmt.Sprintf("%s", *(temp_value.(*error))), "\"", "\\\""))
+		json.WriteString(strings.ReplaceAll(escapeString(fmt.Sprintf("%s", *(temp_value.(*error)))), "\"", "\\\""))
 		json.WriteString("\"")
 	case "*url.Error":
 		json.WriteString("\"")
-		json.WriteString(strings.ReplaceAll(fmt.Sprintf("%s", (*(temp_value.(*url.Error))).Error()), "\"", "\\\""))
+		json.WriteString(strings.ReplaceAll(escapeString(fmt.Sprintf("%s", (*(temp_value.(*url.Error))).Error())), "\"", "\\\""))
 		json.WriteString("\"")
 	case "exec.ExitError":
 		json.WriteString("\"")
-		json.WriteString(strings.ReplaceAll(fmt.Sprintf("%s", temp_value), "\"", "\\\""))
+		json.WriteString(strings.ReplaceAll(escapeString(fmt.Sprintf("%s", temp_value)), "\"", "\\\""))
 		json.WriteString("\"")
 	case "*exec.ExitError":
 		json.WriteString("\"")
-		json.WriteString(strings.ReplaceAll(fmt.Sprintf("%s", temp_value), "\"", "\\\""))
+		json.WriteString(strings.ReplaceAll(escapeString(fmt.Sprintf("%s", temp_value)), "\"", "\\\""))
 		json.WriteString("\"")
 	case "errors.errorString":
 		json.WriteString("\"")
-		json.WriteString(strings.ReplaceAll(fmt.Sprintf("%s", temp_value), "\"", "\\\""))
+		json.WriteString(strings.ReplaceAll(escapeString(fmt.Sprintf("%s", temp_value)), "\"", "\\\""))
 		json.WriteString("\"")
 	case "*errors.errorString":
 		json.WriteString("\"")
-		json.WriteString(strings.ReplaceAll(fmt.Sprintf("%s", temp_value), "\"", "\\\""))
+		json.WriteString(strings.ReplaceAll(escapeString(fmt.Sprintf("%s", temp_value)), "\"", "\\\""))
 		json.WriteString("\"")
 	case "bool":
 		if temp_value.(bool) {
@@ -944,7 +1044,7 @@ func ConvertInterfaceValueToJSONStringValue(json *strings.Builder, value interfa
 		json.WriteString("]")
 	case "func(string, *string, string, string) []error", "func(json.Map) []error", "*func(json.Map) []error", "*func(string) []error", "func(string) []error":
 		json.WriteString("\"")
-		json.WriteString(strings.ReplaceAll(fmt.Sprintf("%s", rep), "\"", "\\\""))
+		json.WriteString(strings.ReplaceAll(escapeString(fmt.Sprintf("%s", rep)), "\"", "\\\""))
 		json.WriteString("\"")
 	case "*time.Time":
 		json.WriteString("\"")
diff --git a/json/Map.go b/json/Map.go
index 30e06f5..859e5d5 100644
--- a/json/Map.go
+++ b/json/Map.go
@@ -332,11 +332,7 @@ func NewMapOfValues(m *map[string]interface{}) *Map {
 		for i := 0; i < length; i++ {
 			key := (temp_keys)[i]
 			key_clone := common.CloneString(&key)
-			escaped_key, escaped_key_error := common.EscapeString(*key_clone, "\"")
-			if escaped_key_error != nil {
-				errors = append(errors, escaped_key_error)
-				return errors
-			}
+			escaped_key := strings.ReplaceAll(escapeString(*key_clone), "\"", "\\\"")
 			json.WriteString("\"")
 			json.WriteString(escaped_key)
 			json.WriteString("\":")
-- 
2.43.0


From c6d9f3eecd351a4c58cdd040a816732612ddaf64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:38 +0000
Subject: [PATCH 06/22] fix: accept numbers with an exponent

---
 json/JSON.go | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/json/JSON.go b/json/JSON.go
index 7836ac6..3b7fd8e 100644
--- a/json/JSON.go
+++ b/json/JSON.go
@@ -647,8 +647,19 @@ func parseJSONValue(key_value string, string_value string, list *([](*Value))) [
 		} else if string_value == "" {
 			data_type = "empty"
 		} else {
+			if strings.Trim(string_value, "0123456789+-.eE") != "" {
+				errors = append(errors, fmt.Errorf("error: value is not a number: '%s'", string_value))
+				return errors
+			}
+
+			mantissa := string_value
+			exponent_index := strings.IndexAny(string_value, "eE")
+			if exponent_index >= 0 {
+				mantissa = string_value[:exponent_index]
+			}
+
 			var negative_number bool
-			negative_number_count := strings.Count(string_value, "-")
+			negative_number_count := strings.Count(mantissa, "-")
 			if negative_number_count == 1 {
 				negative_number = true
 				if !strings.HasPrefix(string_value, "-") {
@@ -661,11 +672,11 @@ func parseJSONValue(key_value string, string_value string, list *([](*Value))) [
 			}
 
 			var decimal_number bool
-			decimal_count := strings.Count(string_value, ".")
+			decimal_count := strings.Count(mantissa, ".")
 			if decimal_count == 1 {
 				decimal_number = true
 			} else if decimal_count == 0 {
-				decimal_number = false
+				decimal_number = exponent_index >= 0
 			} else {
 				errors = append(errors, fmt.Errorf("error: value contained %d decimal points expected 1", decimal_count))
 			}
-- 
2.43.0


From f9ce0888c53140c57d3d3b109d1e30014860565c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:40 +0000
Subject: [PATCH 07/22] fix: return an error instead of panicking when a value
 is not a string

---
 json/Value.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/json/Value.go b/json/Value.go
index 819b5e0..1f262ab 100644
--- a/json/Value.go
+++ b/json/Value.go
@@ -564,7 +564,6 @@ func NewValue(v interface{}) (*Value) {
 			case "*string":
 				result = this().GetObject().(*string)
 			default:
-				panic("debug")
 				errors = append(errors, fmt.Errorf("error Value.GetString: type %s is not supported please implement for attribute", rep))
 			}
 		
-- 
2.43.0


From 436748f0e836629449d8128cae3ad49ae7b11bb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:42 +0000
Subject: [PATCH 08/22] fix: do not wrap an unsigned integer above the signed
 64 bit range

---
 json/Value.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/json/Value.go b/json/Value.go
index 1f262ab..32bba5a 100644
--- a/json/Value.go
+++ b/json/Value.go
@@ -1123,10 +1123,18 @@ func NewValue(v interface{}) (*Value) {
 					temp_value = int64(x)
 				case "*uint":
 					x := this().GetObject().(*uint)
-					temp_value = int64(*x)
+					if *x > 9223372036854775807 {
+						errors = append(errors, fmt.Errorf("%d is greater than 9223372036854775807", *x))
+					} else {
+						temp_value = int64(*x)
+					}
 				case "uint":
 					x := this().GetObject().(uint)
-					temp_value = int64(x)
+					if x > 9223372036854775807 {
+						errors = append(errors, fmt.Errorf("%d is greater than 9223372036854775807", x))
+					} else {
+						temp_value = int64(x)
+					}
 				case "*string":
 					value, value_error := strconv.ParseInt(*(this().GetObject().(*string)), 10, 64)
 					if value_error != nil {
-- 
2.43.0


From 424bc533f6f6858db007757ea6fa7775a7bfc9af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:55 +0000
Subject: [PATCH 09/22] fix: write floating point numbers without losing
 precision

---
 json/JSON.go | 72 ++++++++++++++++++++++++++++++++++++++++++++++------
 1 file changed, 64 insertions(+), 8 deletions(-)

diff --git a/json/JSON.go b/json/JSON.go
index 3b7fd8e..a525ff2 100644
--- a/json/JSON.go
+++ b/json/JSON.go
@@ -2,6 +2,7 @@ package json
 
 import (
 	"fmt"
+	"math"
 	"net/url"
 	"os/exec"
 	"strconv"
@@ -902,6 +903,21 @@ func parseJSONValue(key_value string, string_value string, list *([](*Value))) [
 	return nil
 }
 
+// formatFloat writes a floating point number with six decimals, or with as many as
+// are needed to read the same number back
+func formatFloat(value float64, bit_size int) (string, error) {
+	if math.IsNaN(value) || math.IsInf(value, 0) {
+		return "", fmt.Errorf("error: number cannot be represented: %f", value)
+	}
+
+	text := fmt.Sprintf("%f", value)
+	parsed, parsed_error := strconv.ParseFloat(text, bit_size)
+	if parsed_error != nil || parsed != value {
+		text = strconv.FormatFloat(value, 'f', -1, bit_size)
+	}
+	return text, nil
+}
+
 func ConvertInterfaceValueToJSONStringValue(json *strings.Builder, value interface{}) []error {
 	var errors []error
 	if json == nil {
@@ -1104,13 +1120,33 @@ func ConvertInterfaceValueToJSONStringValue(json *strings.Builder, value interfa
 	case "int":
 		json.WriteString(strconv.FormatInt(int64(temp_value.(int)), 10))
 	case "*float64":
-		json.WriteString(fmt.Sprintf("%f", *(temp_value.(*float64))))
+		float_text, float_text_error := formatFloat(*(temp_value.(*float64)), 64)
+		if float_text_error != nil {
+			errors = append(errors, float_text_error)
+		} else {
+			json.WriteString(float_text)
+		}
 	case "float64":
-		json.WriteString(fmt.Sprintf("%f", (temp_value.(float64))))
+		float_text, float_text_error := formatFloat((temp_value.(float64)), 64)
+		if float_text_error != nil {
+			errors = append(errors, float_text_error)
+		} else {
+			json.WriteString(float_text)
+		}
 	case "*float32":
-		json.WriteString(fmt.Sprintf("%f", *(temp_value.(*float32))))
+		float_text, float_text_error := formatFloat(float64(*(temp_value.(*float32))), 32)
+		if float_text_error != nil {
+			errors = append(errors, float_text_error)
+		} else {
+			json.WriteString(float_text)
+		}
 	case "float32":
-		json.WriteString(fmt.Sprintf("%f", (temp_value.(float32))))
+		float_text, float_text_error := formatFloat(float64((temp_value.(float32))), 32)
+		if float_text_error != nil {
+			errors = append(errors, float_text_error)
+		} else {
+			json.WriteString(float_text)
+		}
 	case "nil":
 		json.WriteString("null")
 	default:
@@ -1219,13 +1255,33 @@ func ConvertInterfaceValueToStringValue(value interface{}) (string, []error) {
 	case "int":
 		result = strconv.FormatInt(int64(temp_value.(int)), 10)
 	case "*float64":
-		result = fmt.Sprintf("%f", *(temp_value.(*float64)))
+		float_text, float_text_error := formatFloat(*(temp_value.(*float64)), 64)
+		if float_text_error != nil {
+			errors = append(errors, float_text_error)
+		} else {
+			result = float_text
+		}
 	case "float64":
-		result = fmt.Sprintf("%f", (temp_value.(float64)))
+		float_text, float_text_error := formatFloat((temp_value.(float64)), 64)
+		if float_text_error != nil {
+			errors = append(errors, float_text_error)
+		} else {
+			result = float_text
+		}
 	case "*float32":
-		result = fmt.Sprintf("%f", *(temp_value.(*float32)))
+		float_text, float_text_error := formatFloat(float64(*(temp_value.(*float32))), 32)
+		if float_text_error != nil {
+			errors = append(errors, float_text_error)
+		} else {
+			result = float_text
+		}
 	case "float32":
-		result = fmt.Sprintf("%f", (temp_value.(float32)))
+		float_text, float_text_error := formatFloat(float64((temp_value.(float32))), 32)
+		if float_text_error != nil {
+			errors = append(errors, float_text_error)
+		} else {
+			result = float_text
+		}
 	case "json.Value":
 		result = fmt.Sprintf("%s", (temp_value.(Value)).GetObject())
 	case "*json.Value":
-- 
2.43.0


From 03a888c32024271672d2a39965a45795436813f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:57 +0000
Subject: [PATCH 10/22] fix: times, errors and functions are not nil

---
 json/Value.go | 12 +-----------
 1 file changed, 1 insertion(+), 11 deletions(-)

diff --git a/json/Value.go b/json/Value.go
index 32bba5a..9d1dc36 100644
--- a/json/Value.go
+++ b/json/Value.go
@@ -649,17 +649,7 @@ func NewValue(v interface{}) (*Value) {
 		},
 		IsNil: func() bool {
 			temp_value := this().GetObject()
-			if common.IsNil(temp_value) {
-				return true
-			}
-			
-			return !(common.IsValue(temp_value) ||
-					common.IsNumber(temp_value) || 
-					common.IsBool(temp_value) || 
-					common.IsString(temp_value) || 
-					common.IsArray(temp_value) || 
-					common.IsMap(temp_value) ||
-					common.IsFunc(temp_value))
+			return common.IsNil(temp_value)
 		},
 		IsBool: func() bool {
 			return common.IsBool(this().GetObject())
-- 
2.43.0


From ac6300632017e227ce3cdf94e947ed05836e8696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:58 +0000
Subject: [PATCH 11/22] fix: write a time stored by value

---
 json/JSON.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/json/JSON.go b/json/JSON.go
index a525ff2..c7dda7c 100644
--- a/json/JSON.go
+++ b/json/JSON.go
@@ -1077,6 +1077,10 @@ func ConvertInterfaceValueToJSONStringValue(json *strings.Builder, value interfa
 		json.WriteString("\"")
 		json.WriteString((*(temp_value.(*time.Time))).Format("2006-01-02 15:04:05.000000"))
 		json.WriteString("\"")
+	case "time.Time":
+		json.WriteString("\"")
+		json.WriteString((temp_value.(time.Time)).Format("2006-01-02 15:04:05.000000"))
+		json.WriteString("\"")
 	case "map[string]map[string][][]string":
 		json.WriteString("\"map[string]map[string][][]string\"")
 	case "*uint64":
@@ -1212,6 +1216,8 @@ func ConvertInterfaceValueToStringValue(value interface{}) (string, []error) {
 		}
 	case "*time.Time":
 		result = (*(temp_value.(*time.Time))).Format("2006-01-02 15:04:05.000000")
+	case "time.Time":
+		result = (temp_value.(time.Time)).Format("2006-01-02 15:04:05.000000")
 	case "map[string]map[string][][]string":
 		result = "map[string]map[string][][]string"
 	case "*uint64":
-- 
2.43.0


From 56c550479fb0ab418f3383d1f1990773e89d6df7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:00 +0000
Subject: [PATCH 12/22] fix: write and clone wrapped errors

---
 json/JSON.go  | 9 +++++++++
 json/Value.go | 4 ++++
 2 files changed, 13 insertions(+)

diff --git a/json/JSON.go b/json/JSON.go
index c7dda7c..0bf0eee 100644
--- a/json/JSON.go
+++ b/json/JSON.go
@@ -1154,6 +1154,12 @@ func ConvertInterfaceValueToJSONStringValue(json *strings.Builder, value interfa
 	case "nil":
 		json.WriteString("null")
 	default:
+		if temp_error, is_error := temp_value.(error); is_error {
+			json.WriteString("\"")
+			json.WriteString(strings.ReplaceAll(escapeString(temp_error.Error()), "\"", "\\\""))
+			json.WriteString("\"")
+			return nil
+		}
 		errors = append(errors, fmt.Errorf("error: JSON.ConvertInterfaceValueToJSONStringValue: type %s is not supported please implement", rep))
 	}
 
@@ -1293,6 +1299,9 @@ func ConvertInterfaceValueToStringValue(value interface{}) (string, []error) {
 	case "*json.Value":
 		result = fmt.Sprintf("%s", (*(temp_value.(*Value))).GetObject())
 	default:
+		if temp_error, is_error := temp_value.(error); is_error {
+			return temp_error.Error(), nil
+		}
 		errors = append(errors, fmt.Errorf("error: JSON.ConvertInterfaceValueToStringValue: type %s is not supported please implement", rep))
 	}
 
diff --git a/json/Value.go b/json/Value.go
index 9d1dc36..cff6d63 100644
--- a/json/Value.go
+++ b/json/Value.go
@@ -348,6 +348,10 @@ func NewValue(v interface{}) (*Value) {
 					result := "*func(string) []error"
 					cloned_value.SetStringValue(result)
 				default:
+					if temp_error, is_error := temp_object.(error); is_error {
+						cloned_value.SetErrorValue(fmt.Errorf("%s", temp_error.Error()))
+						break
+					}
 					errors = append(errors, fmt.Errorf("error: Value.Clone: type %s is not supported please implement", rep))
 			}
 			
-- 
2.43.0


From b7c1a309602504e9ba6ebadb29ac3f7ef57c9a2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:02 +0000
Subject: [PATCH 13/22] fix: clone error messages exactly

---
 json/Value.go | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/json/Value.go b/json/Value.go
index cff6d63..d0d9d7d 100644
--- a/json/Value.go
+++ b/json/Value.go
@@ -202,38 +202,49 @@ func NewValue(v interface{}) (*Value) {
 					cloned_value.SetString(&result)
 				case "error":
 					result := fmt.Sprintf("%s",  temp_object.(error).Error())
-					cloned_value.SetErrorValue(fmt.Errorf(result))
+					cloned_value.SetErrorValue(fmt.Errorf("%s", result))
 				case "[]error": 
 					result := temp_object.([]error)
 					var result_array []error
 					for _, result_array_value := range result {
-						e := fmt.Errorf(fmt.Sprintf("%s", result_array_value.Error()))
+						if result_array_value == nil {
+							result_array = append(result_array, nil)
+							continue
+						}
+						e := fmt.Errorf("%s", result_array_value.Error())
 						result_array = append(result_array, e)
 					}	
 					cloned_value.SetErrorsValue(result_array)				
+				case "*[]error":
+					cloned_errors_value, cloned_errors_value_errors := NewValue(*(temp_object.(*[]error))).Clone()
+					if cloned_errors_value_errors != nil {
+						errors = append(errors, cloned_errors_value_errors...)
+					} else {
+						cloned_value = cloned_errors_value
+					}
 				case "*error":
 					result := fmt.Sprintf("%s", (*(temp_object.(*error))).Error())
-					cloned_error := fmt.Errorf(result)
+					cloned_error := fmt.Errorf("%s", result)
 					cloned_value.SetError(&cloned_error)
 				case "*url.Error":
 					result := fmt.Sprintf("%s", (*(temp_object.(*url.Error))).Error()) 
-					cloned_error := fmt.Errorf(result)
+					cloned_error := fmt.Errorf("%s", result)
 					cloned_value.SetError(&cloned_error)
 				case "exec.ExitError":
 					result := fmt.Sprintf("%s", temp_object.(exec.ExitError))
-					cloned_error := fmt.Errorf(result)
+					cloned_error := fmt.Errorf("%s", result)
 					cloned_value.SetErrorValue(cloned_error)
 				case "*exec.ExitError":
 					result := fmt.Sprintf("%s", *(temp_object.(*exec.ExitError)))
-					cloned_error := fmt.Errorf(result)
+					cloned_error := fmt.Errorf("%s", result)
 					cloned_value.SetError(&cloned_error)
 				case "errors.errorString":
 					result := fmt.Sprintf("%s", temp_object)
-					cloned_error := fmt.Errorf(result)
+					cloned_error := fmt.Errorf("%s", result)
 					cloned_value.SetErrorValue(cloned_error)
 				case "*errors.errorString":
 					result := fmt.Sprintf("%s", temp_object)
-					cloned_error := fmt.Errorf(result)
+					cloned_error := fmt.Errorf("%s", result)
 					cloned_value.SetError(&cloned_error)
 				case "bool":
 					if temp_object.(bool) {
-- 
2.43.0


From 5fac835ddf65f2fdd3df4e3c0caa4a48644fb5e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:36 +0000
Subject: [PATCH 14/22] fix: a map with members is not nil

---
 json/Map.go | 12 +-----------
 1 file changed, 1 insertion(+), 11 deletions(-)

diff --git a/json/Map.go b/json/Map.go
index 859e5d5..4af85c4 100644
--- a/json/Map.go
+++ b/json/Map.go
@@ -451,17 +451,7 @@ func NewMapOfValues(m *map[string]interface{}) *Map {
 			return isValueNilForMap(s)
 		},
 		IsNil: func() bool {			
-			if common.IsNil(internal_map) {
-				return true
-			}
-	
-			return !(common.IsValue(internal_map) ||
-					common.IsNumber(internal_map) || 
-					common.IsBool(internal_map) || 
-					common.IsString(internal_map) || 
-					common.IsArray(internal_map) || 
-					common.IsMap(internal_map) ||
-					common.IsFunc(internal_map))
+			return internal_map == nil
 		},
 		IsBool: func(s string) bool {
 			if isValueNilForMap(s) {
-- 
2.43.0


From d864c5f065241aee7225cc18d3b3325bd70de901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:37 +0000
Subject: [PATCH 15/22] fix: reading invalid text or null as a time is an error
 instead of a panic or zero

---
 json/Value.go | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/json/Value.go b/json/Value.go
index d0d9d7d..afb7db4 100644
--- a/json/Value.go
+++ b/json/Value.go
@@ -152,6 +152,14 @@ func NewValue(v interface{}) (*Value) {
 		internal_value = value
 	}
 
+	// common panics on a string that is not a time unless it is given as a pointer
+	getObjectForTime := func() interface{} {
+		if string_value, is_string := getObject().(string); is_string {
+			return &string_value
+		}
+		return getObject()
+	}
+
 	clone := func() (*Value, []error) {
 		var errors []error
 		temp_value := this()
@@ -1371,21 +1379,23 @@ func NewValue(v interface{}) (*Value) {
 				return nil, nil
 			}
 		
-			return common.GetTimeWithDecimalPlaces(this().GetObject(), decimal_places)
+			return common.GetTimeWithDecimalPlaces(getObjectForTime(), decimal_places)
 		},
 		GetTime: func() (*time.Time, []error) {
 			if this().IsNil() {
 				return nil, nil
 			}
 		
-			return common.GetTime(this().GetObject())
+			return common.GetTime(getObjectForTime())
 		},
 		GetTimeValue: func() (time.Time, []error) {
-			temp_time, temp_time_errors := common.GetTime(this().GetObject())
+			temp_time, temp_time_errors := this().GetTime()
 			if temp_time_errors != nil {
 				return (*common.GetTimeZero()), temp_time_errors
 			} else if common.IsNil(temp_time) {
-				return (*common.GetTimeZero()), temp_time_errors
+				var errors []error
+				errors = append(errors, fmt.Errorf("Value.GetTimeValue time is nil"))
+				return (*common.GetTimeZero()), errors
 			}
 			return *temp_time, nil
 		},
-- 
2.43.0


From 822811ba947f3d1bf86fe36e5ae13edce14c0388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:03 +0000
Subject: [PATCH 16/22] fix: array elements that are nil values are nulls, text
 that reads nil is not

---
 json/Array.go | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/json/Array.go b/json/Array.go
index c542672..17fa61b 100644
--- a/json/Array.go
+++ b/json/Array.go
@@ -123,7 +123,9 @@ func NewArrayOfValues(a *[]interface{}) (*Array) {
 		temp_values := getValues()
 		cloned := NewArray()
 		for _, temp_value := range *temp_values {
-			if temp_value.IsMap() {
+			if temp_value == nil {
+				cloned.AppendNil()
+			} else if temp_value.IsMap() {
 				temp_map, temp_map_errors := temp_value.GetMap()
 				if temp_map_errors != nil {
 					errors = append(errors, temp_map_errors...)
@@ -437,11 +439,14 @@ func NewArrayOfValues(a *[]interface{}) (*Array) {
 				return "", errors
 			}
 		
+			if (*a)[index] == nil {
+				errors = append(errors, fmt.Errorf("Array.GetStringValue value is nil"))
+				return "", errors
+			}
+
 			value, value_errors := ((*a)[index]).GetStringValue()
 			if value_errors != nil {
 				errors = append(errors, fmt.Errorf("Array.GetStringValue has errors: %s", fmt.Sprintf("%s", value_errors)))
-			} else if common.IsNil(value) {
-				errors = append(errors, fmt.Errorf("Array.GetStringValue value is nil"))
 			}
 		
 			if len(errors) > 0 {
@@ -463,6 +468,11 @@ func NewArrayOfValues(a *[]interface{}) (*Array) {
 				return nil, errors
 			}
 		
+			if (*a)[index] == nil {
+				errors = append(errors, fmt.Errorf("Array.GetMap value is nil"))
+				return nil, errors
+			}
+
 			value, value_errors := ((*a)[index]).GetMap()
 			if value_errors != nil {
 				errors = append(errors, fmt.Errorf("Array.GetStringValue has errors: %s", fmt.Sprintf("%s", value_errors)))
-- 
2.43.0


From 1860a283c9c19a0068402e32cb327e1f9f7255b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:05 +0000
Subject: [PATCH 17/22] fix: return a copy of the keys so that removing a key
 does not alter lists returned earlier

---
 json/Map.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/json/Map.go b/json/Map.go
index 4af85c4..289a425 100644
--- a/json/Map.go
+++ b/json/Map.go
@@ -559,7 +559,7 @@ func NewMapOfValues(m *map[string]interface{}) *Map {
 			return toJSONString(json_payload_builder)
 		},
 		GetKeys: func() ([]string) {
-			return getKeys()
+			return append([]string{}, getKeys()...)
 		},
 		SetArray: func(s string, array *Array) {
 			set_map_value := NewValue(array)
-- 
2.43.0


From ff4f066107ee1f060cb0f092ca31b01f38588dc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:07 +0000
Subject: [PATCH 18/22] fix: strings such as nil and map[] are strings, not
 nulls

---
 json/Array.go |  2 +-
 json/Value.go | 11 ++---------
 2 files changed, 3 insertions(+), 10 deletions(-)

diff --git a/json/Array.go b/json/Array.go
index 17fa61b..efe27a8 100644
--- a/json/Array.go
+++ b/json/Array.go
@@ -253,7 +253,7 @@ func NewArrayOfValues(a *[]interface{}) (*Array) {
 		},
 		AppendStringValue: func(value string) {
 			a := getValues()
-			appended_value := NewValue(value)
+			appended_value := NewValue(&value)
 			*a = append(*a, appended_value)
 		},
 		AppendUInt: func(value *uint) {
diff --git a/json/Value.go b/json/Value.go
index afb7db4..0545be6 100644
--- a/json/Value.go
+++ b/json/Value.go
@@ -600,7 +600,7 @@ func NewValue(v interface{}) (*Value) {
 			setObject(value)
 		},
 		SetStringValue: func(value string) {
-			setObject(value)
+			setObject(&value)
 		},
 		GetStringValue: func() (string, []error) {
 			var errors []error
@@ -652,14 +652,7 @@ func NewValue(v interface{}) (*Value) {
 			return value == *s			
 		},
 		IsValueEqualToStringValue: func(s string) (bool) {
-			this_nil := this().IsNil()
-			compare_nil := common.IsNil(s)
-			
-			if this_nil && compare_nil {
-				return true
-			}
-			
-			if this_nil != compare_nil {
+			if this().IsNil() {
 				return false
 			}
 
-- 
2.43.0


From e1987ea0b8ff853adadd399ee6f3033aea01330d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:09 +0000
Subject: [PATCH 19/22] fix: a map made from a collection with one nil member
 keeps that member

---
 json/Map.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/json/Map.go b/json/Map.go
index 289a425..f17a790 100644
--- a/json/Map.go
+++ b/json/Map.go
@@ -414,7 +414,7 @@ func NewMapOfValues(m *map[string]interface{}) *Map {
 		return cloned, nil
 	}
 
-	if !common.IsNil(m) {
+	if m != nil {
 		current_type := ""
 		for key, value := range *m {
 			current_type = common.GetType(value)
-- 
2.43.0


From d841f0aa36bbaab13afd9a14d2988ca4b1280647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:11 +0000
Subject: [PATCH 20/22] fix: the plain text of a null value is null

---
 json/JSON.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/json/JSON.go b/json/JSON.go
index 0bf0eee..97f6a2f 100644
--- a/json/JSON.go
+++ b/json/JSON.go
@@ -1298,6 +1298,8 @@ func ConvertInterfaceValueToStringValue(value interface{}) (string, []error) {
 		result = fmt.Sprintf("%s", (temp_value.(Value)).GetObject())
 	case "*json.Value":
 		result = fmt.Sprintf("%s", (*(temp_value.(*Value))).GetObject())
+	case "nil":
+		result = "null"
 	default:
 		if temp_error, is_error := temp_value.(error); is_error {
 			return temp_error.Error(), nil
-- 
2.43.0


From 80bda06f4b701fd6e5ebd24ff79b5a5d4d34326e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:45 +0000
Subject: [PATCH 21/22] fix: provide the getters for int, uint and bool that
 were declared but never set

---
 json/Array.go | 96 +++++++++++++++++++++++++++++++++++++++++++++++++++
 json/Map.go   | 40 +++++++++++++++++++++
 json/Value.go | 33 ++++++++++++++++++
 3 files changed, 169 insertions(+)

diff --git a/json/Array.go b/json/Array.go
index efe27a8..e962e5e 100644
--- a/json/Array.go
+++ b/json/Array.go
@@ -486,6 +486,98 @@ func NewArrayOfValues(a *[]interface{}) (*Array) {
 		
 			return value, nil
 		},
+		GetArrayOfInt: func() (*[](*int), []error) {
+			array_values := getValues()
+			var errors []error
+			var result ([](*int))
+			for _, array_value := range *array_values {
+				if common.IsNil(array_value) {
+					result = append(result, nil)
+				} else {
+					int_value, int_value_errors := array_value.GetInt()
+					if int_value_errors != nil {
+						errors = append(errors, int_value_errors...)
+					} else {
+						result = append(result, int_value)
+					}
+				}
+			}
+		
+			if len(errors) > 0 {
+				return nil, errors
+			}
+			
+			return &result, nil
+		},
+		GetArrayOfIntValue: func() ([](int), []error) {
+			array_values := getValues()
+			var errors []error
+			var result ([](int))
+			for _, array_value := range *array_values {
+				if common.IsNil(array_value) {
+					errors = append(errors, fmt.Errorf("array contained a null value"))
+				} else {
+					int_value, int_value_errors := array_value.GetIntValue()
+					if int_value_errors != nil {
+						errors = append(errors, int_value_errors...)
+					} else {
+						result = append(result, int_value)
+					}
+				}
+			}
+		
+			if len(errors) > 0 {
+				return nil, errors
+			}
+			
+			return result, nil
+		},
+		GetArrayOfUInt: func() (*[](*uint), []error) {
+			array_values := getValues()
+			var errors []error
+			var result ([](*uint))
+			for _, array_value := range *array_values {
+				if common.IsNil(array_value) {
+					result = append(result, nil)
+				} else {
+					uint_value, uint_value_errors := array_value.GetUInt()
+					if uint_value_errors != nil {
+						errors = append(errors, uint_value_errors...)
+					} else {
+						result = append(result, uint_value)
+					}
+				}
+			}
+		
+			if len(errors) > 0 {
+				return nil, errors
+			}
+			
+			return &result, nil
+		},
+		GetArrayOfUIntValue: func() ([](uint), []error) {
+			array_values := getValues()
+			var errors []error
+			var result ([](uint))
+			for _, array_value := range *array_values {
+				if common.IsNil(array_value) {
+					errors = append(errors, fmt.Errorf("array contained a null value"))
+				} else {
+					uint_value, uint_value_errors := array_value.GetUIntValue()
+					if uint_value_errors != nil {
+						errors = append(errors, uint_value_errors...)
+					} else {
+						result = append(result, uint_value)
+					}
+				}
+			}
+		
+			if len(errors) > 0 {
+				return nil, errors
+			}
+			
+			return result, nil
+		},
 		GetArrayOfInt8: func() (*[](*int8), []error) {
 			array_values := getValues()
 			if common.IsNil(array_values) {
@@ -1140,6 +1232,10 @@ func NewArrayOfValues(a *[]interface{}) (*Array) {
 				return result, nil
 		},
 	}
+	created_array.GetArrayValue = func() (Array, []error) {
+		return created_array, nil
+	}
+
 	return &created_array
 }
 
diff --git a/json/Map.go b/json/Map.go
index f17a790..cf26c30 100644
--- a/json/Map.go
+++ b/json/Map.go
@@ -1085,6 +1085,46 @@ func NewMapOfValues(m *map[string]interface{}) *Map {
 			}
 			return getInternalValue(s).GetTimeWithDecimalPlaces(decimal_places)
 		},
+		GetBoolValue: func(s string) (bool, []error) {
+			if isValueNilForMap(s) {
+				var errors []error
+				errors = append(errors, fmt.Errorf("json.Map.GetBoolValue value is nil"))
+				return false, errors
+			}
+			return getInternalValue(s).GetBoolValue()
+		},
+		GetUInt: func(s string) (*uint, []error) {
+			if isValueNilForMap(s) {
+				return nil, nil
+			}
+			return getInternalValue(s).GetUInt()
+		},
+		GetUIntValue: func(s string) (uint, []error) {
+			if isValueNilForMap(s) {
+				var errors []error
+				errors = append(errors, fmt.Errorf("json.Map.GetUIntValue value is nil"))
+				return 0, errors
+			}
+			return getInternalValue(s).GetUIntValue()
+		},
+		GetArrayOfInt: func(s string) (*[]*int, []error) {
+			array, array_errors := getArray(s)
+			if array_errors != nil {
+				return nil, array_errors
+			} else if common.IsNil(array) {
+				return nil, nil
+			}
+			return array.GetArrayOfInt()
+		},
+		GetArrayOfUInt: func(s string) (*[]*uint, []error) {
+			array, array_errors := getArray(s)
+			if array_errors != nil {
+				return nil, array_errors
+			} else if common.IsNil(array) {
+				return nil, nil
+			}
+			return array.GetArrayOfUInt()
+		},
 		Values: func() *Array {
 			return internal_keys_obj
 		},
diff --git a/json/Value.go b/json/Value.go
index 0545be6..4274d00 100644
--- a/json/Value.go
+++ b/json/Value.go
@@ -3,6 +3,7 @@ package json
 import (
 	common "github.com/matehaxor03/holistic_common/common"
 	"fmt"
+	"math"
 	"time"
 	"strings"
 	"strconv"
@@ -1836,6 +1837,38 @@ func NewValue(v interface{}) (*Value) {
 		
 			return &result, nil
 		},
+		GetUInt: func() (*uint, []error) {
+			var errors []error
+			uint64_value, uint64_value_errors := this().GetUInt64()
+			if uint64_value_errors != nil {
+				return nil, uint64_value_errors
+			} else if uint64_value == nil {
+				return nil, nil
+			}
+		
+			if *uint64_value > math.MaxUint {
+				errors = append(errors, fmt.Errorf("error: value is not in range [0, %d]", uint64(math.MaxUint)))
+				return nil, errors
+			}
+		
+			result := uint(*uint64_value)
+			return &result, nil
+		},
+		GetUIntValue: func() (uint, []error) {
+			var errors []error
+			uint_value, uint_value_errors := this().GetUInt()
+			if uint_value_errors != nil {
+				errors = append(errors, uint_value_errors...)
+			} else if uint_value == nil {
+				errors = append(errors, fmt.Errorf("error: Value.GetUInt returned nil"))
+			}
+		
+			if len(errors) > 0 {
+				return 0, errors
+			}
+		
+			return *uint_value, nil
+		},
 		GetIntValue: func() (int, []error) {
 			var errors []error
 			int_value, int_value_errors := this().GetInt()
-- 
2.43.0


From b39b8ba04c6cb090dcedd0f4c4c419c2eb64ed74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:13 +0000
Subject: [PATCH 22/22] fix: reading an absent array of bool values is an error
 as for the other types

---
 json/Map.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/json/Map.go b/json/Map.go
index cf26c30..3f24ea1 100644
--- a/json/Map.go
+++ b/json/Map.go
@@ -724,11 +724,9 @@ func NewMapOfValues(m *map[string]interface{}) *Map {
 			return array.GetArrayOfBool()
 		},
 		GetArrayOfBoolValue: func(s string) ([]bool, []error) {
-			array, array_errors := getArray(s)
+			array, array_errors := getArrayValue(s)
 			if array_errors != nil {
 				return nil, array_errors
-			} else if common.IsNil(array) {
-				return nil, nil
 			}
 			return array.GetArrayOfBoolValue()
 		},
-- 
2.43.0

