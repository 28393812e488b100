From 387450bc90b256217ec4a5f82c3db6d502d541a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:28 +0000
Subject: [PATCH 01/21] fix: Value.GetString reports unsupported content as an
 error instead of panicking

---
 json/Value.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/json/Value.go b/json/Value.go
index 819b5e0..1f262ab 100644
--- a/json/Value.go
+++ b/json/Value.go
@@ -564,7 +564,6 @@ func NewValue(v interface{}) (*Value) {
 			case "*string":
 				result = this().GetObject().(*string)
 			default:
-				panic("debug")
 				errors = append(errors, fmt.Errorf("error Value.GetString: type %s is not supported please implement for attribute", rep))
 			}
 		
-- 
2.43.0


From 887efcb7a28ada2809c84d2468cfbeee28ddf09c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:30 +0000
Subject: [PATCH 02/21] fix: implement the published operations that were left
 unset (GetUInt, GetBoolValue, GetArrayOfInt, GetArrayValue, ...)

---
 json/Array.go | 113 ++++++++++++++++++++++++++++++++++++++++++++++++++
 json/Map.go   |  40 ++++++++++++++++++
 json/Value.go |  29 +++++++++++++
 3 files changed, 182 insertions(+)

diff --git a/json/Array.go b/json/Array.go
index c542672..63a3ea2 100644
--- a/json/Array.go
+++ b/json/Array.go
@@ -178,6 +178,7 @@ func NewArrayOfValues(a *[]interface{}) (*Array) {
 		return cloned, nil
 	}
 
+	var this_array *Array
 	created_array := Array{
 		Clone: func() (*Array, []error) {
 			return clone()
@@ -420,6 +421,9 @@ func NewArrayOfValues(a *[]interface{}) (*Array) {
 		GetValues: func() *[](*Value) {
 			return getValues()
 		},
+		GetArrayValue: func() (Array, []error) {
+			return *this_array, nil
+		},
 		/*GetValue: func() *Value {
 			return getValue()
 		},*/
@@ -476,6 +480,33 @@ func NewArrayOfValues(a *[]interface{}) (*Array) {
 		
 			return value, nil
 		},
+		GetArrayOfInt: func() (*[](*int), []error) {
+			array_values := getValues()
+			if common.IsNil(array_values) {
+				return nil, nil
+			}
+		
+			var errors []error
+			var result ([](*int))
+			for _, array_value := range *array_values {
+				if common.IsNil(array_value) {
+					result = append(result, nil)			 
+				} else {
+					int_value, int_value_errors := array_value.GetInt()
+					if int_value_errors != nil {
+						errors = append(errors, int_value_errors...)
+					} else {
+						result = append(result, int_value)			 
+					}
+				}
+			}
+		
+			if len(errors) > 0 {
+				return nil, errors
+			}
+			
+			return &result, nil
+		},
 		GetArrayOfInt8: func() (*[](*int8), []error) {
 			array_values := getValues()
 			if common.IsNil(array_values) {
@@ -584,6 +615,33 @@ func NewArrayOfValues(a *[]interface{}) (*Array) {
 			
 			return &result, nil
 		},
+		GetArrayOfUInt: func() (*[](*uint), []error) {
+			array_values := getValues()
+			if common.IsNil(array_values) {
+				return nil, nil
+			}
+		
+			var errors []error
+			var result ([](*uint))
+			for _, array_value := range *array_values {
+				if common.IsNil(array_value) {
+					result = append(result, nil)			 
+				} else {
+					uint_value, uint_value_errors := array_value.GetUInt()
+					if uint_value_errors != nil {
+						errors = append(errors, uint_value_errors...)
+					} else {
+						result = append(result, uint_value)			 
+					}
+				}
+			}
+		
+			if len(errors) > 0 {
+				return nil, errors
+			}
+			
+			return &result, nil
+		},
 		GetArrayOfUInt8: func() (*[](*uint8), []error) {
 			array_values := getValues()
 			if common.IsNil(array_values) {
@@ -692,6 +750,33 @@ func NewArrayOfValues(a *[]interface{}) (*Array) {
 			
 			return &result, nil
 		},
+		GetArrayOfIntValue: func() ([](int), []error) {
+			array_values := getValues()
+			if common.IsNil(array_values) {
+				return nil, nil
+			}
+		
+			var errors []error
+			var result ([](int))
+			for _, array_value := range *array_values {
+				if common.IsNil(array_value) {
+					errors = append(errors, fmt.Errorf("array contained a null value")) 
+				} else {
+					int_value, int_value_errors := array_value.GetIntValue()
+					if int_value_errors != nil {
+						errors = append(errors, int_value_errors...)
+					} else {
+						result = append(result, int_value)			 
+					}
+				}
+			}
+		
+			if len(errors) > 0 {
+				return nil, errors
+			}
+			
+			return result, nil
+		},
 		GetArrayOfInt8Value: func() ([](int8), []error) {
 			array_values := getValues()
 			if common.IsNil(array_values) {
@@ -800,6 +885,33 @@ func NewArrayOfValues(a *[]interface{}) (*Array) {
 			
 			return result, nil
 		},
+		GetArrayOfUIntValue: func() ([]uint, []error) {
+			array_values := getValues()
+			if common.IsNil(array_values) {
+				return nil, nil
+			}
+		
+			var errors []error
+			var result ([](uint))
+			for _, array_value := range *array_values {
+				if common.IsNil(array_value) {
+					errors = append(errors, fmt.Errorf("array contained a null value")) 
+				} else {
+					uint_value, uint_value_errors := array_value.GetUIntValue()
+					if uint_value_errors != nil {
+						errors = append(errors, uint_value_errors...)
+					} else {
+						result = append(result, uint_value)			 
+					}
+				}
+			}
+		
+			if len(errors) > 0 {
+				return nil, errors
+			}
+			
+			return result, nil
+		},
 		GetArrayOfUInt8Value: func() ([]uint8, []error) {
 			array_values := getValues()
 			if common.IsNil(array_values) {
@@ -1130,6 +1242,7 @@ func NewArrayOfValues(a *[]interface{}) (*Array) {
 				return result, nil
 		},
 	}
+	this_array = &created_array
 	return &created_array
 }
 
diff --git a/json/Map.go b/json/Map.go
index 30e06f5..28ea2cd 100644
--- a/json/Map.go
+++ b/json/Map.go
@@ -615,6 +615,15 @@ func NewMapOfValues(m *map[string]interface{}) *Map {
 		GetArrayValue: func(s string) (Array, []error) {
 			return getArrayValue(s)
 		},
+		GetArrayOfInt: func(s string) (*[]*int, []error) {
+			array, array_errors := getArray(s)
+			if array_errors != nil {
+				return nil, array_errors
+			} else if common.IsNil(array) {
+				return nil, nil
+			}
+			return array.GetArrayOfInt()
+		},
 		GetArrayOfInt8: func(s string) (*[]*int8, []error) {
 			array, array_errors := getArray(s)
 			if array_errors != nil {
@@ -651,6 +660,15 @@ func NewMapOfValues(m *map[string]interface{}) *Map {
 			}
 			return array.GetArrayOfInt64()
 		},
+		GetArrayOfUInt: func(s string) (*[]*uint, []error) {
+			array, array_errors := getArray(s)
+			if array_errors != nil {
+				return nil, array_errors
+			} else if common.IsNil(array) {
+				return nil, nil
+			}
+			return array.GetArrayOfUInt()
+		},
 		GetArrayOfUInt8: func(s string) (*[]*uint8, []error) {
 			array, array_errors := getArray(s)
 			if array_errors != nil {
@@ -828,6 +846,14 @@ func NewMapOfValues(m *map[string]interface{}) *Map {
 			}
 			return getInternalValue(s).GetBool()
 		},
+		GetBoolValue: func(s string) (bool, []error) {
+			if isValueNilForMap(s) {
+				var errors []error
+				errors = append(errors, fmt.Errorf("json.Map.GetBoolValue value is nil"))
+				return false, errors
+			}
+			return getInternalValue(s).GetBoolValue()
+		},
 		SetBool: func(s string, value *bool) {
 			set_map_value := NewValue(value)
 			setInternalValue(s, set_map_value)
@@ -981,6 +1007,20 @@ func NewMapOfValues(m *map[string]interface{}) *Map {
 			}
 			return getInternalValue(s).GetIntValue()
 		},
+		GetUInt: func(s string) (*uint, []error) {
+			if isValueNilForMap(s) {
+				return nil, nil
+			}
+			return getInternalValue(s).GetUInt()
+		},
+		GetUIntValue: func(s string) (uint, []error) {
+			if isValueNilForMap(s) {
+				var errors []error
+				errors = append(errors, fmt.Errorf("json.Map.GetUIntValue value is nil"))
+				return 0, errors
+			}
+			return getInternalValue(s).GetUIntValue()
+		},
 		SetInt: func(s string, value *int) {
 			set_map_value := NewValue(value)
 			setInternalValue(s, set_map_value)
diff --git a/json/Value.go b/json/Value.go
index 1f262ab..b8f2cf1 100644
--- a/json/Value.go
+++ b/json/Value.go
@@ -1838,6 +1838,35 @@ func NewValue(v interface{}) (*Value) {
 		
 			return result, nil
 		},
+		GetUInt: func() (*uint, []error) {
+			uint64_value, uint64_value_errors := this().GetUInt64()
+			if uint64_value_errors != nil {
+				return nil, uint64_value_errors
+			} else if uint64_value == nil {
+				return nil, nil
+			}
+
+			if *uint64_value > uint64(^uint(0)) {
+				var errors []error
+				errors = append(errors, fmt.Errorf("error: value is not in range of uint"))
+				return nil, errors
+			}
+
+			result := uint(*uint64_value)
+			return &result, nil
+		},
+		GetUIntValue: func() (uint, []error) {
+			uint_value, uint_value_errors := this().GetUInt()
+			if uint_value_errors != nil {
+				return 0, uint_value_errors
+			} else if uint_value == nil {
+				var errors []error
+				errors = append(errors, fmt.Errorf("error: Value.GetUInt returned nil"))
+				return 0, errors
+			}
+
+			return *uint_value, nil
+		},
 		SetObject: func(value interface{}) () {
 			setObject(value)
 		},
-- 
2.43.0


From 5354cbda06b61b855e41f705633475b6c3be0804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:53 +0000
Subject: [PATCH 03/21] fix: Value.IsNil no longer reports times, errors, lists
 and functions as nil

---
 json/Value.go | 13 +------------
 1 file changed, 1 insertion(+), 12 deletions(-)

diff --git a/json/Value.go b/json/Value.go
index b8f2cf1..613c45b 100644
--- a/json/Value.go
+++ b/json/Value.go
@@ -648,18 +648,7 @@ func NewValue(v interface{}) (*Value) {
 			return value == s			
 		},
 		IsNil: func() bool {
-			temp_value := this().GetObject()
-			if common.IsNil(temp_value) {
-				return true
-			}
-			
-			return !(common.IsValue(temp_value) ||
-					common.IsNumber(temp_value) || 
-					common.IsBool(temp_value) || 
-					common.IsString(temp_value) || 
-					common.IsArray(temp_value) || 
-					common.IsMap(temp_value) ||
-					common.IsFunc(temp_value))
+			return common.IsNil(this().GetObject())
 		},
 		IsBool: func() bool {
 			return common.IsBool(this().GetObject())
-- 
2.43.0


From 906bb082d91d5090b07c8f8065e3f635b0e8d45c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:55 +0000
Subject: [PATCH 04/21] fix: GetInt64 refuses uint content above the int64
 range instead of wrapping it

---
 json/Value.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/json/Value.go b/json/Value.go
index 613c45b..52576cb 100644
--- a/json/Value.go
+++ b/json/Value.go
@@ -1112,10 +1112,18 @@ func NewValue(v interface{}) (*Value) {
 					temp_value = int64(x)
 				case "*uint":
 					x := this().GetObject().(*uint)
-					temp_value = int64(*x)
+					if uint64(*x) > 9223372036854775807 {
+						errors = append(errors, fmt.Errorf("%d is greater than 9223372036854775807", *x))
+					} else {
+						temp_value = int64(*x)
+					}
 				case "uint":
 					x := this().GetObject().(uint)
-					temp_value = int64(x)
+					if uint64(x) > 9223372036854775807 {
+						errors = append(errors, fmt.Errorf("%d is greater than 9223372036854775807", x))
+					} else {
+						temp_value = int64(x)
+					}
 				case "*string":
 					value, value_error := strconv.ParseInt(*(this().GetObject().(*string)), 10, 64)
 					if value_error != nil {
-- 
2.43.0


From b140adcc95e0b4277de24a570a1a19b282f7da22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:57 +0000
Subject: [PATCH 05/21] fix: Map.GetArrayOfBoolValue reports a missing key like
 its sibling value reads

---
 json/Map.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/json/Map.go b/json/Map.go
index 28ea2cd..da0ef45 100644
--- a/json/Map.go
+++ b/json/Map.go
@@ -756,11 +756,9 @@ func NewMapOfValues(m *map[string]interface{}) *Map {
 			return array.GetArrayOfBool()
 		},
 		GetArrayOfBoolValue: func(s string) ([]bool, []error) {
-			array, array_errors := getArray(s)
+			array, array_errors := getArrayValue(s)
 			if array_errors != nil {
 				return nil, array_errors
-			} else if common.IsNil(array) {
-				return nil, nil
 			}
 			return array.GetArrayOfBoolValue()
 		},
-- 
2.43.0


From bd18a21b8dea56ae01ce721588cd12deade34d10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:57 +0000
Subject: [PATCH 06/21] fix: reading text as a time never panics and
 GetTimeValue reports missing content

---
 json/Value.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/json/Value.go b/json/Value.go
index 52576cb..2b263fa 100644
--- a/json/Value.go
+++ b/json/Value.go
@@ -1362,14 +1362,22 @@ func NewValue(v interface{}) (*Value) {
 				return nil, nil
 			}
 		
-			return common.GetTime(this().GetObject())
+			object := this().GetObject()
+			if text, is_text := object.(*string); is_text {
+				// common.GetTime panics for unparsable *string content
+				return common.GetTime(*text)
+			}
+
+			return common.GetTime(object)
 		},
 		GetTimeValue: func() (time.Time, []error) {
-			temp_time, temp_time_errors := common.GetTime(this().GetObject())
+			temp_time, temp_time_errors := this().GetTime()
 			if temp_time_errors != nil {
 				return (*common.GetTimeZero()), temp_time_errors
 			} else if common.IsNil(temp_time) {
-				return (*common.GetTimeZero()), temp_time_errors
+				var errors []error
+				errors = append(errors, fmt.Errorf("error: Value.GetTime returned nil"))
+				return (*common.GetTimeZero()), errors
 			}
 			return *temp_time, nil
 		},
-- 
2.43.0


From 6abbb74c21cfbb65e80f3c5cf567c576ae343e25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:10 +0000
Subject: [PATCH 07/21] fix: Clone copies error texts verbatim, error and text
 lists, nil errors, wrapped errors and nil elements

---
 json/Array.go |  4 +++-
 json/Value.go | 49 ++++++++++++++++++++++++++++++++++++++++---------
 2 files changed, 43 insertions(+), 10 deletions(-)

diff --git a/json/Array.go b/json/Array.go
index 63a3ea2..6357fe5 100644
--- a/json/Array.go
+++ b/json/Array.go
@@ -123,7 +123,9 @@ func NewArrayOfValues(a *[]interface{}) (*Array) {
 		temp_values := getValues()
 		cloned := NewArray()
 		for _, temp_value := range *temp_values {
-			if temp_value.IsMap() {
+			if common.IsNil(temp_value) {
+				cloned.AppendNil()
+			} else if temp_value.IsMap() {
 				temp_map, temp_map_errors := temp_value.GetMap()
 				if temp_map_errors != nil {
 					errors = append(errors, temp_map_errors...)
diff --git a/json/Value.go b/json/Value.go
index 2b263fa..9522a64 100644
--- a/json/Value.go
+++ b/json/Value.go
@@ -202,38 +202,65 @@ func NewValue(v interface{}) (*Value) {
 					cloned_value.SetString(&result)
 				case "error":
 					result := fmt.Sprintf("%s",  temp_object.(error).Error())
-					cloned_value.SetErrorValue(fmt.Errorf(result))
+					cloned_value.SetErrorValue(fmt.Errorf("%s", result))
 				case "[]error": 
 					result := temp_object.([]error)
 					var result_array []error
 					for _, result_array_value := range result {
-						e := fmt.Errorf(fmt.Sprintf("%s", result_array_value.Error()))
+						if result_array_value == nil {
+							result_array = append(result_array, nil)
+							continue
+						}
+						e := fmt.Errorf("%s", result_array_value.Error())
 						result_array = append(result_array, e)
 					}	
 					cloned_value.SetErrorsValue(result_array)				
+				case "*[]error":
+					result := *(temp_object.(*[]error))
+					var result_array []error
+					for _, result_array_value := range result {
+						if result_array_value == nil {
+							result_array = append(result_array, nil)
+							continue
+						}
+						e := fmt.Errorf("%s", result_array_value.Error())
+						result_array = append(result_array, e)
+					}
+					cloned_value.SetErrors(&result_array)
+				case "[]string":
+					result := append([]string{}, temp_object.([]string)...)
+					cloned_value.SetObject(result)
+				case "*[]string":
+					result := append([]string{}, *(temp_object.(*[]string))...)
+					cloned_value.SetObject(&result)
 				case "*error":
+					if *(temp_object.(*error)) == nil {
+						var nil_error error
+						cloned_value.SetError(&nil_error)
+						break
+					}
 					result := fmt.Sprintf("%s", (*(temp_object.(*error))).Error())
-					cloned_error := fmt.Errorf(result)
+					cloned_error := fmt.Errorf("%s", result)
 					cloned_value.SetError(&cloned_error)
 				case "*url.Error":
 					result := fmt.Sprintf("%s", (*(temp_object.(*url.Error))).Error()) 
-					cloned_error := fmt.Errorf(result)
+					cloned_error := fmt.Errorf("%s", result)
 					cloned_value.SetError(&cloned_error)
 				case "exec.ExitError":
 					result := fmt.Sprintf("%s", temp_object.(exec.ExitError))
-					cloned_error := fmt.Errorf(result)
+					cloned_error := fmt.Errorf("%s", result)
 					cloned_value.SetErrorValue(cloned_error)
 				case "*exec.ExitError":
 					result := fmt.Sprintf("%s", *(temp_object.(*exec.ExitError)))
-					cloned_error := fmt.Errorf(result)
+					cloned_error := fmt.Errorf("%s", result)
 					cloned_value.SetError(&cloned_error)
 				case "errors.errorString":
 					result := fmt.Sprintf("%s", temp_object)
-					cloned_error := fmt.Errorf(result)
+					cloned_error := fmt.Errorf("%s", result)
 					cloned_value.SetErrorValue(cloned_error)
 				case "*errors.errorString":
 					result := fmt.Sprintf("%s", temp_object)
-					cloned_error := fmt.Errorf(result)
+					cloned_error := fmt.Errorf("%s", result)
 					cloned_value.SetError(&cloned_error)
 				case "bool":
 					if temp_object.(bool) {
@@ -348,7 +375,11 @@ func NewValue(v interface{}) (*Value) {
 					result := "*func(string) []error"
 					cloned_value.SetStringValue(result)
 				default:
-					errors = append(errors, fmt.Errorf("error: Value.Clone: type %s is not supported please implement", rep))
+					if other_error, is_error := temp_object.(error); is_error {
+						cloned_value.SetErrorValue(fmt.Errorf("%s", other_error.Error()))
+					} else {
+						errors = append(errors, fmt.Errorf("error: Value.Clone: type %s is not supported please implement", rep))
+					}
 			}
 			
 		}
-- 
2.43.0


From 1988849ac6aaae63627b2b4b80f0a0d5ef53df92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:12 +0000
Subject: [PATCH 08/21] fix: times by value, wrapped errors and nil errors can
 be serialised

---
 json/JSON.go | 28 ++++++++++++++++++++++++++--
 1 file changed, 26 insertions(+), 2 deletions(-)

diff --git a/json/JSON.go b/json/JSON.go
index 475ee08..e5d806f 100644
--- a/json/JSON.go
+++ b/json/JSON.go
@@ -806,6 +806,10 @@ func ConvertInterfaceValueToJSONStringValue(json *strings.Builder, value interfa
 		json.WriteString(strings.ReplaceAll(fmt.Sprintf("%s", temp_value.(error)), "\"", "\\\""))
 		json.WriteString("\"")
 	case "*error":
+		if *(temp_value.(*error)) == nil {
+			json.WriteString("null")
+			break
+		}
 		json.WriteString("\"")
 		json.WriteString(strings.ReplaceAll(fmt.Sprintf("%s", *(temp_value.(*error))), "\"", "\\\""))
 		json.WriteString("\"")
@@ -921,6 +925,10 @@ func ConvertInterfaceValueToJSONStringValue(json *strings.Builder, value interfa
 		json.WriteString("\"")
 		json.WriteString(strings.ReplaceAll(fmt.Sprintf("%s", rep), "\"", "\\\""))
 		json.WriteString("\"")
+	case "time.Time":
+		json.WriteString("\"")
+		json.WriteString((temp_value.(time.Time)).Format("2006-01-02 15:04:05.000000"))
+		json.WriteString("\"")
 	case "*time.Time":
 		json.WriteString("\"")
 		json.WriteString((*(temp_value.(*time.Time))).Format("2006-01-02 15:04:05.000000"))
@@ -978,7 +986,13 @@ func ConvertInterfaceValueToJSONStringValue(json *strings.Builder, value interfa
 	case "nil":
 		json.WriteString("null")
 	default:
-		errors = append(errors, fmt.Errorf("error: JSON.ConvertInterfaceValueToJSONStringValue: type %s is not supported please implement", rep))
+		if other_error, is_error := temp_value.(error); is_error {
+			json.WriteString("\"")
+			json.WriteString(strings.ReplaceAll(other_error.Error(), "\"", "\\\""))
+			json.WriteString("\"")
+		} else {
+			errors = append(errors, fmt.Errorf("error: JSON.ConvertInterfaceValueToJSONStringValue: type %s is not supported please implement", rep))
+		}
 	}
 
 	if len(errors) > 0 {
@@ -1015,6 +1029,10 @@ func ConvertInterfaceValueToStringValue(value interface{}) (string, []error) {
 	case "error":
 		result = fmt.Sprintf("%s", temp_value.(error).Error())
 	case "*error":
+		if *(temp_value.(*error)) == nil {
+			result = "null"
+			break
+		}
 		result = fmt.Sprintf("%s", (*(temp_value.(*error))).Error())
 	case "*url.Error":
 		result = fmt.Sprintf("%s", (*(temp_value.(*url.Error))).Error())
@@ -1038,6 +1056,8 @@ func ConvertInterfaceValueToStringValue(value interface{}) (string, []error) {
 		} else {
 			result = "false"
 		}
+	case "time.Time":
+		result = (temp_value.(time.Time)).Format("2006-01-02 15:04:05.000000")
 	case "*time.Time":
 		result = (*(temp_value.(*time.Time))).Format("2006-01-02 15:04:05.000000")
 	case "map[string]map[string][][]string":
@@ -1095,7 +1115,11 @@ func ConvertInterfaceValueToStringValue(value interface{}) (string, []error) {
 	case "*json.Value":
 		result = fmt.Sprintf("%s", (*(temp_value.(*Value))).GetObject())
 	default:
-		errors = append(errors, fmt.Errorf("error: JSON.ConvertInterfaceValueToStringValue: type %s is not supported please implement", rep))
+		if other_error, is_error := temp_value.(error); is_error {
+			result = other_error.Error()
+		} else {
+			errors = append(errors, fmt.Errorf("error: JSON.ConvertInterfaceValueToStringValue: type %s is not supported please implement", rep))
+		}
 	}
 
 	if len(errors) > 0 {
-- 
2.43.0


From 3d85dd73be837aae71656c7df84ea4e5d2d47636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:14 +0000
Subject: [PATCH 09/21] fix: positional array reads report nil elements and
 return the text nil unchanged

---
 json/Array.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/json/Array.go b/json/Array.go
index 6357fe5..bfc893e 100644
--- a/json/Array.go
+++ b/json/Array.go
@@ -443,11 +443,14 @@ func NewArrayOfValues(a *[]interface{}) (*Array) {
 				return "", errors
 			}
 		
+			if common.IsNil((*a)[index]) {
+				errors = append(errors, fmt.Errorf("Array.GetStringValue value is nil"))
+				return "", errors
+			}
+
 			value, value_errors := ((*a)[index]).GetStringValue()
 			if value_errors != nil {
 				errors = append(errors, fmt.Errorf("Array.GetStringValue has errors: %s", fmt.Sprintf("%s", value_errors)))
-			} else if common.IsNil(value) {
-				errors = append(errors, fmt.Errorf("Array.GetStringValue value is nil"))
 			}
 		
 			if len(errors) > 0 {
@@ -469,6 +472,11 @@ func NewArrayOfValues(a *[]interface{}) (*Array) {
 				return nil, errors
 			}
 		
+			if common.IsNil((*a)[index]) {
+				errors = append(errors, fmt.Errorf("Array.GetMap value is nil"))
+				return nil, errors
+			}
+
 			value, value_errors := ((*a)[index]).GetMap()
 			if value_errors != nil {
 				errors = append(errors, fmt.Errorf("Array.GetStringValue has errors: %s", fmt.Sprintf("%s", value_errors)))
-- 
2.43.0


From b003d7c2a5dec69154b2cc563abd397e7fa3a834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:16 +0000
Subject: [PATCH 10/21] fix: key and value lists handed out by a Map are
 snapshots

---
 json/Map.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/json/Map.go b/json/Map.go
index da0ef45..64b3183 100644
--- a/json/Map.go
+++ b/json/Map.go
@@ -573,7 +573,7 @@ func NewMapOfValues(m *map[string]interface{}) *Map {
 			return toJSONString(json_payload_builder)
 		},
 		GetKeys: func() ([]string) {
-			return getKeys()
+			return append([]string{}, getKeys()...)
 		},
 		SetArray: func(s string, array *Array) {
 			set_map_value := NewValue(array)
@@ -1138,7 +1138,11 @@ func NewMapOfValues(m *map[string]interface{}) *Map {
 			return getInternalValue(s).GetTimeWithDecimalPlaces(decimal_places)
 		},
 		Values: func() *Array {
-			return internal_keys_obj
+			values := NewArray()
+			for _, value := range *(internal_keys_obj.GetValues()) {
+				values.AppendValue(value)
+			}
+			return values
 		},
 		Clone: func() (*Map, []error) {
 			return clone()
-- 
2.43.0


From 09d39c080673665dca451d5f75e00f1c421fc477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:18 +0000
Subject: [PATCH 11/21] fix: NewMapOfValues inserts keys in a fixed order

---
 json/Map.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/json/Map.go b/json/Map.go
index 64b3183..3ceebef 100644
--- a/json/Map.go
+++ b/json/Map.go
@@ -2,6 +2,7 @@ package json
 
 import (
 	"fmt"
+	"sort"
 	"strings"
 	"time"
 	common "github.com/matehaxor03/holistic_common/common"
@@ -420,7 +421,13 @@ func NewMapOfValues(m *map[string]interface{}) *Map {
 
 	if !common.IsNil(m) {
 		current_type := ""
-		for key, value := range *m {
+		sorted_keys := make([]string, 0, len(*m))
+		for key := range *m {
+			sorted_keys = append(sorted_keys, key)
+		}
+		sort.Strings(sorted_keys)
+		for _, key := range sorted_keys {
+			value := (*m)[key]
 			current_type = common.GetType(value)
 			if current_type == "json.Value" {
 				temp_value := ((value).(Value))
-- 
2.43.0


From 8e3f0bfec8ccb5c123784bd4e5aa73e738be1406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:20 +0000
Subject: [PATCH 12/21] fix: texts set by value are kept even when they read
 nil

---
 json/Array.go |  2 +-
 json/Value.go | 11 ++---------
 2 files changed, 3 insertions(+), 10 deletions(-)

diff --git a/json/Array.go b/json/Array.go
index bfc893e..0c41f8a 100644
--- a/json/Array.go
+++ b/json/Array.go
@@ -254,7 +254,7 @@ func NewArrayOfValues(a *[]interface{}) (*Array) {
 		},
 		AppendStringValue: func(value string) {
 			a := getValues()
-			appended_value := NewValue(value)
+			appended_value := NewValue(&value)
 			*a = append(*a, appended_value)
 		},
 		AppendUInt: func(value *uint) {
diff --git a/json/Value.go b/json/Value.go
index 9522a64..9c9dcd8 100644
--- a/json/Value.go
+++ b/json/Value.go
@@ -608,7 +608,7 @@ func NewValue(v interface{}) (*Value) {
 			setObject(value)
 		},
 		SetStringValue: func(value string) {
-			setObject(value)
+			setObject(&value)
 		},
 		GetStringValue: func() (string, []error) {
 			var errors []error
@@ -660,14 +660,7 @@ func NewValue(v interface{}) (*Value) {
 			return value == *s			
 		},
 		IsValueEqualToStringValue: func(s string) (bool) {
-			this_nil := this().IsNil()
-			compare_nil := common.IsNil(s)
-			
-			if this_nil && compare_nil {
-				return true
-			}
-			
-			if this_nil != compare_nil {
+			if this().IsNil() {
 				return false
 			}
 
-- 
2.43.0


From 101e0605016b2fd3c45b80f38b50c45f10b67a71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:05 +0000
Subject: [PATCH 13/21] fix: floats are serialised without losing digits; NaN
 and infinities are refused

---
 json/JSON.go | 52 ++++++++++++++++++++++++++++++++++++++++++++--------
 1 file changed, 44 insertions(+), 8 deletions(-)

diff --git a/json/JSON.go b/json/JSON.go
index e5d806f..041c4b3 100644
--- a/json/JSON.go
+++ b/json/JSON.go
@@ -2,6 +2,7 @@ package json
 
 import (
 	"fmt"
+	"math"
 	"net/url"
 	"os/exec"
 	"strconv"
@@ -766,6 +767,21 @@ func parseJSONValue(key_value string, string_value string, list *([](*Value))) [
 	return nil
 }
 
+// formatFloat writes the shortest decimal text that denotes exactly the given number
+// and that is read back as a float.
+func formatFloat(value float64, bit_size int) (string, error) {
+	if math.IsNaN(value) || math.IsInf(value, 0) {
+		return "", fmt.Errorf("error: %v cannot be expressed in json", value)
+	}
+
+	result := strconv.FormatFloat(value, 'f', -1, bit_size)
+	if !strings.Contains(result, ".") {
+		result += ".0"
+	}
+
+	return result, nil
+}
+
 func ConvertInterfaceValueToJSONStringValue(json *strings.Builder, value interface{}) []error {
 	var errors []error
 	if json == nil {
@@ -976,13 +992,33 @@ func ConvertInterfaceValueToJSONStringValue(json *strings.Builder, value interfa
 	case "int":
 		json.WriteString(strconv.FormatInt(int64(temp_value.(int)), 10))
 	case "*float64":
-		json.WriteString(fmt.Sprintf("%f", *(temp_value.(*float64))))
+		float_text, float_error := formatFloat(float64(*(temp_value.(*float64))), 64)
+		if float_error != nil {
+			errors = append(errors, float_error)
+		} else {
+			json.WriteString(float_text)
+		}
 	case "float64":
-		json.WriteString(fmt.Sprintf("%f", (temp_value.(float64))))
+		float_text, float_error := formatFloat(float64((temp_value.(float64))), 64)
+		if float_error != nil {
+			errors = append(errors, float_error)
+		} else {
+			json.WriteString(float_text)
+		}
 	case "*float32":
-		json.WriteString(fmt.Sprintf("%f", *(temp_value.(*float32))))
+		float_text, float_error := formatFloat(float64(*(temp_value.(*float32))), 32)
+		if float_error != nil {
+			errors = append(errors, float_error)
+		} else {
+			json.WriteString(float_text)
+		}
 	case "float32":
-		json.WriteString(fmt.Sprintf("%f", (temp_value.(float32))))
+		float_text, float_error := formatFloat(float64((temp_value.(float32))), 32)
+		if float_error != nil {
+			errors = append(errors, float_error)
+		} else {
+			json.WriteString(float_text)
+		}
 	case "nil":
 		json.WriteString("null")
 	default:
@@ -1103,13 +1139,13 @@ func ConvertInterfaceValueToStringValue(value interface{}) (string, []error) {
 	case "int":
 		result = strconv.FormatInt(int64(temp_value.(int)), 10)
 	case "*float64":
-		result = fmt.Sprintf("%f", *(temp_value.(*float64)))
+		result = strconv.FormatFloat(float64(*(temp_value.(*float64))), 'f', -1, 64)
 	case "float64":
-		result = fmt.Sprintf("%f", (temp_value.(float64)))
+		result = strconv.FormatFloat(float64((temp_value.(float64))), 'f', -1, 64)
 	case "*float32":
-		result = fmt.Sprintf("%f", *(temp_value.(*float32)))
+		result = strconv.FormatFloat(float64(*(temp_value.(*float32))), 'f', -1, 32)
 	case "float32":
-		result = fmt.Sprintf("%f", (temp_value.(float32)))
+		result = strconv.FormatFloat(float64((temp_value.(float32))), 'f', -1, 32)
 	case "json.Value":
 		result = fmt.Sprintf("%s", (temp_value.(Value)).GetObject())
 	case "*json.Value":
-- 
2.43.0


From 6480a247520c6b4e205f7fb5bded8efaf0f0e350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:07 +0000
Subject: [PATCH 14/21] fix: keys are escaped and unescaped like text values,
 also in front of nested containers

---
 json/JSON.go | 1 +
 json/Map.go  | 6 +-----
 2 files changed, 2 insertions(+), 5 deletions(-)

diff --git a/json/JSON.go b/json/JSON.go
index 041c4b3..96008e8 100644
--- a/json/JSON.go
+++ b/json/JSON.go
@@ -127,6 +127,7 @@ func Parse(s string) (*Map, []error) {
 
 func unquote_key_value(key string) (string, []error) {
 	var errors []error
+	key = strings.Replace(key, "\\\"", "\"", -1)
 	if strings.HasPrefix(key, "\"") && strings.HasSuffix(key, "\"") {
 		key = (key)[1:(len(key) - 1)]
 	} else {
diff --git a/json/Map.go b/json/Map.go
index 3ceebef..1322f29 100644
--- a/json/Map.go
+++ b/json/Map.go
@@ -333,11 +333,7 @@ func NewMapOfValues(m *map[string]interface{}) *Map {
 		for i := 0; i < length; i++ {
 			key := (temp_keys)[i]
 			key_clone := common.CloneString(&key)
-			escaped_key, escaped_key_error := common.EscapeString(*key_clone, "\"")
-			if escaped_key_error != nil {
-				errors = append(errors, escaped_key_error)
-				return errors
-			}
+			escaped_key := strings.ReplaceAll(*key_clone, "\"", "\\\"")
 			json.WriteString("\"")
 			json.WriteString(escaped_key)
 			json.WriteString("\":")
-- 
2.43.0


From 06121d56bf101de112538d65c66362527b452e0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:09 +0000
Subject: [PATCH 15/21] fix: multi-byte characters are carried through parsing
 unchanged

---
 json/JSON.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/json/JSON.go b/json/JSON.go
index 96008e8..b3788a5 100644
--- a/json/JSON.go
+++ b/json/JSON.go
@@ -163,9 +163,9 @@ func parseJSONMap(json_string string, index *uint64, mode *string, metrics *Map)
 		i := *index
 		previous_value := ""
 		if *index > 0 {
-			previous_value = string(json_string[i-1])
+			previous_value = json_string[i-1:i]
 		}
-		value := string(json_string[i])
+		value := json_string[i:i+1]
 		rune_values := []rune(value)
 		rune_value := rune_values[0]
 
-- 
2.43.0


From 78bf935a497a5c26259c0c655cd0244ff69efac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:11 +0000
Subject: [PATCH 16/21] fix: Parse reports content after the document and lone
 quotes instead of panicking

---
 json/JSON.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/json/JSON.go b/json/JSON.go
index b3788a5..3f29b47 100644
--- a/json/JSON.go
+++ b/json/JSON.go
@@ -128,7 +128,7 @@ func Parse(s string) (*Map, []error) {
 func unquote_key_value(key string) (string, []error) {
 	var errors []error
 	key = strings.Replace(key, "\\\"", "\"", -1)
-	if strings.HasPrefix(key, "\"") && strings.HasSuffix(key, "\"") {
+	if len(key) >= 2 && strings.HasPrefix(key, "\"") && strings.HasSuffix(key, "\"") {
 		key = (key)[1:(len(key) - 1)]
 	} else {
 		errors = append(errors, fmt.Errorf("error: key does not start with  \" or end with \""))
@@ -169,6 +169,11 @@ func parseJSONMap(json_string string, index *uint64, mode *string, metrics *Map)
 		rune_values := []rune(value)
 		rune_value := rune_values[0]
 
+		if len(*list) == 0 && (parent_map != nil || value != "{") {
+			errors = append(errors, fmt.Errorf("error: unexpected content outside of the document at position %d", i))
+			return nil, errors
+		}
+
 		if !parsing_string {
 			if value == "\"" && previous_value != "\\" {
 				parsing_string = true
@@ -470,7 +475,7 @@ func parseJSONValue(key_value string, string_value string, list *([](*Value))) [
 	string_value = strings.Replace(string_value, "\\\"", "\"", -1)
 
 	if ((*list)[len(*list)-1]).IsMap() {
-		if strings.HasPrefix(key_value, "\"") && strings.HasSuffix(key_value, "\"") {
+		if len(key_value) >= 2 && strings.HasPrefix(key_value, "\"") && strings.HasSuffix(key_value, "\"") {
 			dequoted_value := (key_value)[1:(len(key_value) - 1)]
 			key_value = dequoted_value
 		} else {
@@ -479,7 +484,7 @@ func parseJSONValue(key_value string, string_value string, list *([](*Value))) [
 	}
 
 	if strings.Contains(string_value, "\"") {
-		if strings.HasPrefix(string_value, "\"") && strings.HasSuffix(string_value, "\"") {
+		if len(string_value) >= 2 && strings.HasPrefix(string_value, "\"") && strings.HasSuffix(string_value, "\"") {
 			data_type = "string"
 			dequoted_value := (string_value)[1:(len(string_value) - 1)]
 			string_value = dequoted_value
-- 
2.43.0


From 662869a16dcd102e3a5f27529aeda650c2b8fbf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:13 +0000
Subject: [PATCH 17/21] fix: mismatched and missing closing brackets are
 reported by Parse

---
 json/JSON.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/json/JSON.go b/json/JSON.go
index 3f29b47..c1acaef 100644
--- a/json/JSON.go
+++ b/json/JSON.go
@@ -344,6 +344,11 @@ func parseJSONMap(json_string string, index *uint64, mode *string, metrics *Map)
 				*index++
 				continue
 			} else if value == "}" {
+				if !((*list)[len(*list)-1]).IsMap() {
+					errors = append(errors, fmt.Errorf("error: array closed by } at position %d", i))
+					return nil, errors
+				}
+
 				parse_errors := parseJSONValue(temp_key_r, temp_value_r, list)
 				if parse_errors != nil {
 					errors = append(errors, parse_errors...)
@@ -399,6 +404,11 @@ func parseJSONMap(json_string string, index *uint64, mode *string, metrics *Map)
 				*index++
 				continue
 			} else if value == "]" {
+				if !((*list)[len(*list)-1]).IsArray() {
+					errors = append(errors, fmt.Errorf("error: object closed by ] at position %d", i))
+					return nil, errors
+				}
+
 				parse_errors := parseJSONValue(temp_key_r, temp_value_r, list)
 
 				if parse_errors != nil {
@@ -446,6 +456,10 @@ func parseJSONMap(json_string string, index *uint64, mode *string, metrics *Map)
 		*index++
 	}
 
+	if len(*list) != 0 {
+		errors = append(errors, fmt.Errorf("error: document ended with %d unclosed objects or arrays", len(*list)))
+	}
+
 	if len(errors) > 0 {
 		return nil, errors
 	}
-- 
2.43.0


From e185e2f8fa9935bba74ec2e5208ed334f656418d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:55 +0000
Subject: [PATCH 18/21] fix: brackets and quotes out of place around a key are
 reported by Parse

---
 json/JSON.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/json/JSON.go b/json/JSON.go
index c1acaef..584158c 100644
--- a/json/JSON.go
+++ b/json/JSON.go
@@ -278,6 +278,9 @@ func parseJSONMap(json_string string, index *uint64, mode *string, metrics *Map)
 			} else if value == "\"" && previous_value != "\\" {
 				current_mode = mode_looking_for_key_name
 				temp_key_r += value
+			} else if value == "{" || value == "[" || value == "]" {
+				errors = append(errors, fmt.Errorf("error: unexpected %s in place of a key at position %d", value, i))
+				return nil, errors
 			}
 			*index++
 			continue
@@ -295,6 +298,9 @@ func parseJSONMap(json_string string, index *uint64, mode *string, metrics *Map)
 		if current_mode == mode_looking_for_key_name_column {
 			if string(value) == ":" {
 				current_mode = mode_looking_for_next_value_or_end
+			} else if strings.Contains("\"{}[],", value) {
+				errors = append(errors, fmt.Errorf("error: unexpected %s between a key and its value at position %d", value, i))
+				return nil, errors
 			}
 			*index++
 			continue
-- 
2.43.0


From 0cef6b9d8de855b6a23bfde30377eefa949ba2b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:30 +0000
Subject: [PATCH 19/21] fix: reading text held by value as a time reports
 unparsable text instead of panicking

---
 json/Value.go | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/json/Value.go b/json/Value.go
index 9c9dcd8..818d217 100644
--- a/json/Value.go
+++ b/json/Value.go
@@ -1379,7 +1379,13 @@ func NewValue(v interface{}) (*Value) {
 				return nil, nil
 			}
 		
-			return common.GetTimeWithDecimalPlaces(this().GetObject(), decimal_places)
+			object := this().GetObject()
+			if text, is_text := object.(string); is_text {
+				// common.GetTimeWithDecimalPlaces panics for unparsable string content held by value
+				return common.GetTimeWithDecimalPlaces(&text, decimal_places)
+			}
+
+			return common.GetTimeWithDecimalPlaces(object, decimal_places)
 		},
 		GetTime: func() (*time.Time, []error) {
 			if this().IsNil() {
@@ -1387,9 +1393,9 @@ func NewValue(v interface{}) (*Value) {
 			}
 		
 			object := this().GetObject()
-			if text, is_text := object.(*string); is_text {
-				// common.GetTime panics for unparsable *string content
-				return common.GetTime(*text)
+			if text, is_text := object.(string); is_text {
+				// common.GetTime panics for unparsable string content held by value
+				return common.GetTime(&text)
 			}
 
 			return common.GetTime(object)
-- 
2.43.0


From eab8d747da65df96668c09e991b45ded82991941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:44 +0000
Subject: [PATCH 20/21] fix: ConvertInterfaceValueToStringValue reports a value
 holding a nil error instead of panicking

---
 json/JSON.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/json/JSON.go b/json/JSON.go
index 584158c..47e5ebe 100644
--- a/json/JSON.go
+++ b/json/JSON.go
@@ -1177,7 +1177,7 @@ func ConvertInterfaceValueToStringValue(value interface{}) (string, []error) {
 	case "*json.Value":
 		result = fmt.Sprintf("%s", (*(temp_value.(*Value))).GetObject())
 	default:
-		if other_error, is_error := temp_value.(error); is_error {
+		if other_error, is_error := temp_value.(error); is_error && rep != "nil" {
 			result = other_error.Error()
 		} else {
 			errors = append(errors, fmt.Errorf("error: JSON.ConvertInterfaceValueToStringValue: type %s is not supported please implement", rep))
-- 
2.43.0


From f5ec9033be89bc199eb8a9fb69d6a26eeb80e165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:26 +0000
Subject: [PATCH 21/21] fix: texts that read nil are serialised as text, not as
 null

---
 json/JSON.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/json/JSON.go b/json/JSON.go
index 47e5ebe..8f3c5cc 100644
--- a/json/JSON.go
+++ b/json/JSON.go
@@ -815,7 +815,7 @@ func ConvertInterfaceValueToJSONStringValue(json *strings.Builder, value interfa
 		return errors
 	}
 
-	if common.IsNil(value) {
+	if _, is_text := value.(string); !is_text && common.IsNil(value) {
 		json.WriteString("null")
 		return nil
 	}
@@ -831,6 +831,10 @@ func ConvertInterfaceValueToJSONStringValue(json *strings.Builder, value interfa
 	}
 
 	rep = common.GetType(temp_value)
+	if _, is_text := temp_value.(string); is_text {
+		rep = "string"
+	}
+
 	switch rep {
 	case "string":
 		temp_string := temp_value.(string)
-- 
2.43.0

