From 5047a794677817ab1b4fc7f946b0566644d2fb94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:42 +0000
Subject: [PATCH 01/51] fix: keep the order of 'last' instructions stable
 between transforms

Reversing the shared instruction list in place made every second call use
the opposite order and was a data race between concurrent calls.
---
 transform/transform.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/transform/transform.go b/transform/transform.go
index fe1ed7c..478271d 100644
--- a/transform/transform.go
+++ b/transform/transform.go
@@ -257,20 +257,21 @@ func (tis *transformInstructions) UnmarshalJSON(data []byte) error {
 // It handles the logic for concatenation, first or last methods.
 func (tis *transformInstructions) transform(in interface{}, fieldType string, modifier pathModifier, format inputFormat) (interface{}, error) {
 	var concatResult bool
+	instructions := tis.From
 	switch tis.Method {
 	case last:
-		var newFrom []*transformInstruction
+		// Reverse a copy, the instructions are shared by every call using this transformer.
+		instructions = make([]*transformInstruction, 0, len(tis.From))
 		for i := len(tis.From) - 1; i >= 0; i-- {
-			newFrom = append(newFrom, tis.From[i])
+			instructions = append(instructions, tis.From[i])
 		}
-		tis.From = newFrom
 	case concatenate:
 		concatResult = true
 	}
 
 	var result interface{}
 
-	for _, from := range tis.From {
+	for _, from := range instructions {
 		value, err := from.transform(in, fieldType, modifier, format)
 		if err != nil {
 			return nil, err
-- 
2.43.0


From 9d1715712d646927e95ebd4e6319efe0d1d3877b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:03 +0000
Subject: [PATCH 02/51] fix: do not write object fields into the schema default
 or the input

An object used its default value, or the map its transform selected from
the input, as the result map. Fields were then saved into it, so a default
accumulated the fields of earlier transforms (and was written concurrently)
and instances reading the same input saw fields of their siblings.
---
 transform/instance.go | 17 +++++------------
 transform/utils.go    |  9 +++++++++
 2 files changed, 14 insertions(+), 12 deletions(-)

diff --git a/transform/instance.go b/transform/instance.go
index 8310396..1a3d456 100644
--- a/transform/instance.go
+++ b/transform/instance.go
@@ -333,18 +333,16 @@ func (ot *objectTransformer) objectTransformJSON(in interface{}, modifier pathMo
 		}
 		if rawValue != nil {
 			var ok bool
-			newValue, ok = rawValue.(map[string]interface{})
+			rawMap, ok := rawValue.(map[string]interface{})
 			if !ok {
 				return nil, errors.New("transform returned non-object value")
 			}
+			// copied as it is part of the input, which other instances still read
+			newValue = copyMap(rawMap)
 		}
 	}
 	if newValue == nil {
-		if ot.defaultValue == nil {
-			newValue = make(map[string]interface{})
-		} else {
-			newValue = ot.defaultValue
-		}
+		newValue = copyMap(ot.defaultValue)
 	}
 
 	// Add each child value to the paren
@@ -410,12 +408,7 @@ func (ot *objectTransformer) objectTransformXML(in interface{}, modifier pathMod
 		}
 	}
 
-	var newValue map[string]interface{}
-	if ot.defaultValue == nil {
-		newValue = make(map[string]interface{})
-	} else {
-		newValue = ot.defaultValue
-	}
+	newValue := copyMap(ot.defaultValue)
 
 	// Add each child value to the parent if there is no object transform or if the object transform node is found
 	for _, child := range ot.children {
diff --git a/transform/utils.go b/transform/utils.go
index 2d3a096..fb2e34e 100644
--- a/transform/utils.go
+++ b/transform/utils.go
@@ -169,6 +169,15 @@ func convertString(raw interface{}) (interface{}, error) {
 	}
 }
 
+// copyMap returns a new map with the same entries as the given map, it is never nil.
+func copyMap(in map[string]interface{}) map[string]interface{} {
+	out := make(map[string]interface{}, len(in))
+	for k, v := range in {
+		out[k] = v
+	}
+	return out
+}
+
 func extractTransformInstructions(raw json.RawMessage, transformIdentifier, path string, instanceType string) (*transformInstructions, error) {
 	rawTransformInstruction, _, _, err := jsonparser.Get(raw, "transform", transformIdentifier)
 	if err != nil && err != jsonparser.KeyPathNotFoundError {
-- 
2.43.0


From a04b81c21845974629b5b57936a44dd9efabadac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:35 +0000
Subject: [PATCH 03/51] fix: keep the base of a transformed array out of
 sibling instances

The base value was saved into the shared input tree, so whether a sibling
read the transformed or the original array depended on map iteration order
and nested saves ended up in the schema default of later transforms.
---
 transform/instance.go |  3 +++
 transform/utils.go    | 45 +++++++++++++++++++++++++++++++++++++++++++
 2 files changed, 48 insertions(+)

diff --git a/transform/instance.go b/transform/instance.go
index 1a3d456..d3beec8 100644
--- a/transform/instance.go
+++ b/transform/instance.go
@@ -182,9 +182,12 @@ func (at *arrayTransformer) arrayTransformJSON(in interface{}, modifier pathModi
 			if !ok {
 				return nil, errors.New("input is neither a JSON array nor object")
 			}
+			// saved to a copy as only the children of this array are to use the value
+			inMap = copyPath(inMap, path)
 			if err := saveInTree(inMap, path, base); err != nil {
 				return nil, fmt.Errorf("failed to save array transform to input data: %v", err)
 			}
+			in = inMap
 		}
 	}
 
diff --git a/transform/utils.go b/transform/utils.go
index fb2e34e..94f90a3 100644
--- a/transform/utils.go
+++ b/transform/utils.go
@@ -178,6 +178,51 @@ func copyMap(in map[string]interface{}) map[string]interface{} {
 	return out
 }
 
+// copyPath returns a copy of the tree for saving a value at the given path, see saveInTree. The maps and slices along
+// the path are copied, everything else is shared with the original tree.
+func copyPath(tree map[string]interface{}, path string) map[string]interface{} {
+	root := copyMap(tree)
+	current := root
+
+	for _, split := range strings.Split(strings.TrimPrefix(path, "$."), ".") {
+		arraySplits := strings.Split(split, "[")
+		value := copyContainer(current[arraySplits[0]])
+		if value == nil {
+			return root
+		}
+		current[arraySplits[0]] = value
+
+		for _, arraySplit := range arraySplits[1:] {
+			slice, ok := value.([]interface{})
+			index, err := strconv.Atoi(strings.Trim(arraySplit, "]"))
+			if !ok || err != nil || index >= len(slice) {
+				return root
+			}
+			if value = copyContainer(slice[index]); value == nil {
+				return root
+			}
+			slice[index] = value
+		}
+
+		var ok bool
+		if current, ok = value.(map[string]interface{}); !ok {
+			return root
+		}
+	}
+	return root
+}
+
+// copyContainer returns a shallow copy of a map or slice or nil for any other value.
+func copyContainer(value interface{}) interface{} {
+	switch v := value.(type) {
+	case map[string]interface{}:
+		return copyMap(v)
+	case []interface{}:
+		return append([]interface{}{}, v...)
+	}
+	return nil
+}
+
 func extractTransformInstructions(raw json.RawMessage, transformIdentifier, path string, instanceType string) (*transformInstructions, error) {
 	rawTransformInstruction, _, _, err := jsonparser.Get(raw, "transform", transformIdentifier)
 	if err != nil && err != jsonparser.KeyPathNotFoundError {
-- 
2.43.0


From eb6ce1f5934f65fa49ff424dd5b1be2f22ee9094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:54 +0000
Subject: [PATCH 04/51] fix: make a lone value wrapped into an array visible to
 the array items

The items are read from the input at an index of the array path. Without
the wrapped value saved there they were dropped, or saving a nested array
panicked.
---
 transform/instance.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/transform/instance.go b/transform/instance.go
index d3beec8..1124dbe 100644
--- a/transform/instance.go
+++ b/transform/instance.go
@@ -100,7 +100,8 @@ func (at *arrayTransformer) baseValueJSON(in interface{}, path string, modifier
 	if err == nil && rawValue != nil {
 		newValue, ok := rawValue.([]interface{})
 		if !ok {
-			newValue = []interface{}{rawValue}
+			// the children find their item at an index of this path, where the input has no array
+			return []interface{}{rawValue}, true, nil
 		}
 		return newValue, false, nil
 	}
-- 
2.43.0


From 80f9bb65c102969fa2592cb4d95d6c7d1e2b93ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:08 +0000
Subject: [PATCH 05/51] fix: support transformed arrays nested in a root level
 array

Saving the base of a nested array required the input to be an object, so
such schemas failed every transform.
---
 transform/instance.go | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/transform/instance.go b/transform/instance.go
index 1124dbe..fc8793b 100644
--- a/transform/instance.go
+++ b/transform/instance.go
@@ -179,16 +179,26 @@ func (at *arrayTransformer) arrayTransformJSON(in interface{}, modifier pathModi
 		if path == "$" {
 			in = base
 		} else {
-			inMap, ok := in.(map[string]interface{})
-			if !ok {
+			// saved to a copy as only the children of this array are to use the value
+			switch tree := in.(type) {
+			case map[string]interface{}:
+				tree = copyPath(tree, path)
+				err = saveInTree(tree, path, base)
+				in = tree
+			case []interface{}:
+				if !strings.HasPrefix(path, "$[") {
+					return nil, errors.New("input is a JSON array but the schema is for an object")
+				}
+				// paths start at an item of the root array, `$[0].a`
+				root := copyPath(map[string]interface{}{"$": tree}, path)
+				err = saveInTree(root, path, base)
+				in = root["$"]
+			default:
 				return nil, errors.New("input is neither a JSON array nor object")
 			}
-			// saved to a copy as only the children of this array are to use the value
-			inMap = copyPath(inMap, path)
-			if err := saveInTree(inMap, path, base); err != nil {
+			if err != nil {
 				return nil, fmt.Errorf("failed to save array transform to input data: %v", err)
 			}
-			in = inMap
 		}
 	}
 
-- 
2.43.0


From ce1451f3e3a585e39b22ab673b7729b88ec2bb3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:13 +0000
Subject: [PATCH 06/51] fix: make the max operation work for negative values
 and empty arrays

Items with only negative values never exceeded the initial maximum of zero,
and an empty array, as split returns for an empty string, panicked.
---
 transform/operations.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/transform/operations.go b/transform/operations.go
index 0e978b8..64a1194 100644
--- a/transform/operations.go
+++ b/transform/operations.go
@@ -159,6 +159,9 @@ func (m *max) transform(in interface{}) (interface{}, error) {
 	if !ok {
 		return nil, errors.New("input must be an array")
 	}
+	if len(inArray) == 0 {
+		return nil, errors.New("input array is empty")
+	}
 	byArg := strings.Replace(m.args["by"], "@", "$", 1)
 	returnArg := strings.Replace(m.args["return"], "@", "$", 1)
 
@@ -177,7 +180,7 @@ func (m *max) transform(in interface{}) (interface{}, error) {
 			}
 			by = float64(byInt)
 		}
-		if by > largest {
+		if i == 0 || by > largest {
 			largest = by
 			largestIndex = i
 		}
-- 
2.43.0


From 1cdf1e46e3197d41ac415f8905aeec4fcc1e3090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:54 +0000
Subject: [PATCH 07/51] fix: treat unparsable boolean strings as a failed
 conversion

convertBoolean returned false along with the error, so a JSON transform
failed instead of using the default and an XML transform output false.
---
 transform/utils.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/transform/utils.go b/transform/utils.go
index 94f90a3..174e802 100644
--- a/transform/utils.go
+++ b/transform/utils.go
@@ -82,7 +82,11 @@ func convertBoolean(raw interface{}) (interface{}, error) {
 		if t == "" {
 			return false, nil
 		}
-		return strconv.ParseBool(t)
+		value, err := strconv.ParseBool(t)
+		if err != nil {
+			return nil, err
+		}
+		return value, nil
 	case int:
 		return t > 0, nil
 	case float32:
-- 
2.43.0


From 964a4c43b8c1db334af837576f2161814a4c4e7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:36 +0000
Subject: [PATCH 08/51] fix: do not panic on a missing or invalid xmlPath

xmlquery.Find panics on expressions it fails to compile, including the empty
path of an instruction which only has a jsonPath.
---
 transform/transform.go | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/transform/transform.go b/transform/transform.go
index 478271d..238baa8 100644
--- a/transform/transform.go
+++ b/transform/transform.go
@@ -113,15 +113,19 @@ func (ti *transformInstruction) xmlTransform(in interface{}, fieldType string, m
 		return nil, errors.New("Error converting input to *xmlquery.Node")
 	}
 
-	xmlNode := xmlquery.Find(node, path)
+	if path == "" {
+		return nil, nil
+	}
+
+	xmlNode, err := xmlquery.QueryAll(node, path)
+	if err != nil {
+		return nil, fmt.Errorf("invalid xmlPath %q: %v", path, err)
+	}
 	if xmlNode == nil {
 		return nil, nil
 	}
 
-	var (
-		value interface{}
-		err   error
-	)
+	var value interface{}
 
 	// num elements that have a child element
 	numElementsWithChild := len(xmlquery.Find(node, path+"[*]"))
-- 
2.43.0


From a935c056369441a3cc0f3d17ce466793efe642e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:54 +0000
Subject: [PATCH 09/51] fix: fall back to the raw XML value exactly when there
 are operations

A childless node whose text does not convert skipped its operations, so for
example duration and timeParse never applied. Several such nodes without
operations ended up in the output, which then failed to marshal.
---
 transform/transform.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/transform/transform.go b/transform/transform.go
index 238baa8..d34b97c 100644
--- a/transform/transform.go
+++ b/transform/transform.go
@@ -135,7 +135,12 @@ func (ti *transformInstruction) xmlTransform(in interface{}, fieldType string, m
 
 	// if only numElementsWithoutChild has results then the nodes are leaf nodes and can extract value
 	if numElementsWithChild == 0 && numElementsWithoutChild == 1 {
-		value, err = convert(xmlNode[0].InnerText(), fieldType)
+		text := xmlNode[0].InnerText()
+		value, err = convert(text, fieldType)
+		if err != nil && len(ti.Operations) > 0 {
+			// the operations may be what makes the text convertible
+			value = text
+		}
 	} else {
 		switch fieldType {
 		case "array", "object":
@@ -148,7 +153,7 @@ func (ti *transformInstruction) xmlTransform(in interface{}, fieldType string, m
 			value = strings.Join(values, " ")
 		default:
 			value, err = convert(xmlNode[0].InnerText(), fieldType)
-			if err != nil {
+			if err != nil && len(ti.Operations) > 0 {
 				value = xmlNode
 			}
 		}
-- 
2.43.0


From 3c92695edf4d9010a324c3be52bc77e6b529adc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:57 +0000
Subject: [PATCH 10/51] fix: do not convert NaN and infinity strings to numbers

They cannot be marshalled to JSON and failed the whole transform.
---
 transform/utils.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/transform/utils.go b/transform/utils.go
index 174e802..2883887 100644
--- a/transform/utils.go
+++ b/transform/utils.go
@@ -3,6 +3,7 @@ package transform
 import (
 	"encoding/json"
 	"fmt"
+	"math"
 	"reflect"
 	"regexp"
 	"strconv"
@@ -114,7 +115,8 @@ func convertNumber(raw interface{}) (interface{}, error) {
 		if value, err := strconv.Atoi(t); err == nil {
 			return value, nil
 		}
-		if value, err := strconv.ParseFloat(t, 64); err == nil {
+		// NaN and infinity are no JSON numbers
+		if value, err := strconv.ParseFloat(t, 64); err == nil && !math.IsNaN(value) && !math.IsInf(value, 0) {
 			return value, nil
 		}
 		return nil, fmt.Errorf("failed to convert string %q to number", t)
-- 
2.43.0


From d525ef8f380599ddd2779cca079eb322049286ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:19 +0000
Subject: [PATCH 11/51] fix: recognize empty properties regardless of white
 space

An object with "properties": { } dropped its input while "{}" kept it.
---
 transform/transformer.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/transform/transformer.go b/transform/transformer.go
index 7e8c715..2dbd80b 100644
--- a/transform/transformer.go
+++ b/transform/transformer.go
@@ -219,7 +219,11 @@ func (tr *Transformer) walker(path string, value json.RawMessage) error {
 		if err != nil {
 			return fmt.Errorf("failed to extract properties: %v", err)
 		}
-		if string(properties) == "{}" { // Checks for empty "properties"
+		var children map[string]json.RawMessage
+		if err := json.Unmarshal(properties, &children); err != nil {
+			return fmt.Errorf("failed to extract properties: %v", err)
+		}
+		if len(children) == 0 { // Checks for empty "properties"
 			iTransformer, err = newScalarTransformer(path, tr.transformIdentifier, value, instanceType, tr.format)
 		} else {
 			iTransformer, err = newObjectTransformer(path, tr.transformIdentifier, value, tr.format)
-- 
2.43.0


From b9efb9f7e22a11883393de6d1af51f69e2ce0dee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:42 +0000
Subject: [PATCH 12/51] fix: copy fields whose names are not jsonpath
 identifiers

The path of an instance was evaluated as a jsonpath expression, which does
not parse for names such as my-key, so these fields were always dropped.
---
 transform/instance.go | 15 +++++----------
 transform/utils.go    | 26 ++++++++++++++++++++++++++
 2 files changed, 31 insertions(+), 10 deletions(-)

diff --git a/transform/instance.go b/transform/instance.go
index fc8793b..00dc581 100644
--- a/transform/instance.go
+++ b/transform/instance.go
@@ -6,7 +6,6 @@ import (
 	"fmt"
 	"strings"
 
-	jsonpath "github.com/GannettDigital/PaesslerAG_jsonpath"
 	"github.com/GannettDigital/jsonparser"
 
 	"github.com/antchfx/xmlquery"
@@ -96,8 +95,7 @@ func (at *arrayTransformer) baseValueJSON(in interface{}, path string, modifier
 	}
 
 	// 2. Look for the same jsonPath in the input and use directly if possible.
-	rawValue, err := jsonpath.Get(path, in)
-	if err == nil && rawValue != nil {
+	if rawValue := lookup(in, path); rawValue != nil {
 		newValue, ok := rawValue.([]interface{})
 		if !ok {
 			// the children find their item at an index of this path, where the input has no array
@@ -524,13 +522,10 @@ func (st *scalarTransformer) transformScalarJSON(in interface{}, modifier pathMo
 	}
 
 	// 2. Look for the same jsonPath in the input and use directly if possible.
-	rawValue, err := jsonpath.Get(path, in)
-	if err == nil {
-		newValue, err := convert(rawValue, st.jsonType)
-		// if there is a conversion error fall through to the default
-		if newValue != nil {
-			return newValue, err
-		}
+	newValue, err := convert(lookup(in, path), st.jsonType)
+	// if there is a conversion error fall through to the default
+	if newValue != nil {
+		return newValue, err
 	}
 
 	// 3. Fall back to the JSON Schema default value.
diff --git a/transform/utils.go b/transform/utils.go
index 2883887..ec1b01a 100644
--- a/transform/utils.go
+++ b/transform/utils.go
@@ -184,6 +184,32 @@ func copyMap(in map[string]interface{}) map[string]interface{} {
 	return out
 }
 
+// lookup returns the value at the path of an instance or nil if there is none. Unlike with a jsonpath expression the
+// names in the path can be any, not only identifiers.
+func lookup(in interface{}, path string) interface{} {
+	value := in
+	for i, split := range strings.Split(path, ".") {
+		arraySplits := strings.Split(split, "[")
+		if i != 0 { // the first is the root, `$`
+			object, ok := value.(map[string]interface{})
+			if !ok {
+				return nil
+			}
+			value = object[arraySplits[0]]
+		}
+
+		for _, arraySplit := range arraySplits[1:] {
+			array, ok := value.([]interface{})
+			index, err := strconv.Atoi(strings.Trim(arraySplit, "]"))
+			if !ok || err != nil || index >= len(array) {
+				return nil
+			}
+			value = array[index]
+		}
+	}
+	return value
+}
+
 // copyPath returns a copy of the tree for saving a value at the given path, see saveInTree. The maps and slices along
 // the path are copied, everything else is shared with the original tree.
 func copyPath(tree map[string]interface{}, path string) map[string]interface{} {
-- 
2.43.0


From 15c8808b53faa897d18e664433f87e3b89895887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:50:52 +0000
Subject: [PATCH 13/51] fix: XML items which are attributes can be queried

---
 transform/transform.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/transform/transform.go b/transform/transform.go
index d34b97c..4300c13 100644
--- a/transform/transform.go
+++ b/transform/transform.go
@@ -117,6 +117,13 @@ func (ti *transformInstruction) xmlTransform(in interface{}, fieldType string, m
 		return nil, nil
 	}
 
+	if node.Type == xmlquery.AttributeNode {
+		// queries can't start at an attribute, an element with the same text can stand in for it
+		element := *node
+		element.Type = xmlquery.ElementNode
+		node = &element
+	}
+
 	xmlNode, err := xmlquery.QueryAll(node, path)
 	if err != nil {
 		return nil, fmt.Errorf("invalid xmlPath %q: %v", path, err)
-- 
2.43.0


From cca6c34f0c3e39e18513b48a0260a0963b884c9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:02:00 +0000
Subject: [PATCH 14/51] fix: report invalid instructions and defaults of
 objects

The error of an object's transformer was shadowed, making a transformer
panicked or left the object out instead of failing.
---
 transform/transformer.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/transform/transformer.go b/transform/transformer.go
index 2dbd80b..71e5c94 100644
--- a/transform/transformer.go
+++ b/transform/transformer.go
@@ -215,9 +215,9 @@ func (tr *Transformer) walker(path string, value json.RawMessage) error {
 	var iTransformer instanceTransformer
 	switch instanceType {
 	case "object":
-		properties, _, _, err := jsonparser.Get(value, "properties")
-		if err != nil {
-			return fmt.Errorf("failed to extract properties: %v", err)
+		properties, _, _, getErr := jsonparser.Get(value, "properties")
+		if getErr != nil {
+			return fmt.Errorf("failed to extract properties: %v", getErr)
 		}
 		var children map[string]json.RawMessage
 		if err := json.Unmarshal(properties, &children); err != nil {
-- 
2.43.0


From 92717188482f422b3efbc819891266d4c80fb6b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:28 +0000
Subject: [PATCH 15/51] fix: keep escapes in strings next to a reference

---
 jsonschema/reference.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/jsonschema/reference.go b/jsonschema/reference.go
index ecee038..08499b3 100644
--- a/jsonschema/reference.go
+++ b/jsonschema/reference.go
@@ -65,10 +65,8 @@ func dereference(schemaPath string, data json.RawMessage, oneOfType string, flat
 					keyPath := destPath
 					keyPath = append(keyPath, string(key))
 					if dataType == jsonparser.String {
-						value, err = json.Marshal(string(value))
-						if err != nil {
-							return fmt.Errorf("failed to marshal string %q to update data with ref %q at path %v key %q: %w", value, ref, refPath, key, err)
-						}
+						// the value is the still escaped content of the string
+						value = []byte(`"` + string(value) + `"`)
 					}
 					data, err = jsonparser.Set(data, value, keyPath...)
 					if err != nil {
-- 
2.43.0


From e8c12c4323c98dc54507e268d9660f488643cfe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:44 +0000
Subject: [PATCH 16/51] fix: merge all allOf entries of a schema without
 properties when not flattening

---
 jsonschema/schema.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jsonschema/schema.go b/jsonschema/schema.go
index ed62891..5a7fca4 100644
--- a/jsonschema/schema.go
+++ b/jsonschema/schema.go
@@ -135,7 +135,7 @@ func schemaFromFile(schemaLoadPath string, oneOfType string, flatten bool) (*Sch
 		for _, all := range sj.AllOf {
 			// If not flattening, check that the schema also has properties in order to avoid issues with schemas that only
 			// contain oneOf/allOf references.
-			if !flatten && s.Properties != nil {
+			if !flatten && sj.Properties != nil {
 				continue
 			}
 			s.Properties = mergeProperties(s.Properties, all.Properties)
-- 
2.43.0


From e9477f1270bfb68d075581bac27b5537cad8d2ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:53 +0000
Subject: [PATCH 17/51] fix: do not take files whose name starts with http for
 URLs

---
 jsonschema/reference.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jsonschema/reference.go b/jsonschema/reference.go
index 08499b3..8688c05 100644
--- a/jsonschema/reference.go
+++ b/jsonschema/reference.go
@@ -169,7 +169,7 @@ func resolveRef(ref string, data json.RawMessage, schemaPath string, oneOfType s
 	switch {
 	case sourcePath == "":
 		source = data
-	case strings.HasPrefix(sourcePath, "http"):
+	case strings.HasPrefix(sourcePath, "http://"), strings.HasPrefix(sourcePath, "https://"):
 		resp, err := http.Get(sourcePath)
 		if err != nil {
 			return nil, fmt.Errorf("unable to get reference from %q: %v", sourcePath, err)
-- 
2.43.0


From d9a5db1f0a3b5628099964d1f5cf349ce60e0098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:10 +0000
Subject: [PATCH 18/51] fix: keep the transform and other keys at the root of
 referenced files

---
 jsonschema/reference.go |  2 +-
 jsonschema/schema.go    | 28 ++++++++++++++++++++++++++++
 2 files changed, 29 insertions(+), 1 deletion(-)

diff --git a/jsonschema/reference.go b/jsonschema/reference.go
index 8688c05..5173762 100644
--- a/jsonschema/reference.go
+++ b/jsonschema/reference.go
@@ -199,7 +199,7 @@ func resolveRef(ref string, data json.RawMessage, schemaPath string, oneOfType s
 		if err != nil {
 			return nil, fmt.Errorf("failed to process reference file %q: %v", refPath, err)
 		}
-		source, err = json.Marshal(schema)
+		source, err = schema.expanded()
 		if err != nil {
 			return nil, fmt.Errorf("failed to marshal schema from file %q: %v", refPath, err)
 		}
diff --git a/jsonschema/schema.go b/jsonschema/schema.go
index 5a7fca4..9d07711 100644
--- a/jsonschema/schema.go
+++ b/jsonschema/schema.go
@@ -61,6 +61,33 @@ type Schema struct {
 	Instance
 
 	Validator Validator `json:"-"`
+
+	data json.RawMessage // the dereferenced contents of the file
+}
+
+// expanded returns the dereferenced JSON of the schema with allOf and oneOf merged.
+// This includes those parts of the file, such as transforms, which are not in Instance.
+func (s *Schema) expanded() (json.RawMessage, error) {
+	expanded, err := json.Marshal(s.Instance)
+	if err != nil {
+		return nil, err
+	}
+	var known, fields map[string]json.RawMessage
+	if err := json.Unmarshal(expanded, &known); err != nil {
+		return nil, err
+	}
+	if err := json.Unmarshal(s.data, &fields); err != nil {
+		return nil, err
+	}
+	for key, value := range fields {
+		if _, ok := known[key]; ok {
+			continue
+		}
+		if expanded, err = jsonparser.Set(expanded, value, key); err != nil {
+			return nil, err
+		}
+	}
+	return expanded, nil
 }
 
 // Validate will check that the given json is validate according the schema.
@@ -127,6 +154,7 @@ func schemaFromFile(schemaLoadPath string, oneOfType string, flatten bool) (*Sch
 		s := Schema{
 			Instance:  sj,
 			Validator: v,
+			data:      data,
 		}
 
 		// TODO this behavior is not spec compatible, according to the spec it is possible to have multiple allOf instances
-- 
2.43.0


From 31920451c58e2c296292f38e80c573326b146bdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:24 +0000
Subject: [PATCH 19/51] fix: report circular references instead of hanging

---
 jsonschema/reference.go | 95 +++++++++++++++++++++++++++++++++++------
 jsonschema/schema.go    |  4 ++
 2 files changed, 86 insertions(+), 13 deletions(-)

diff --git a/jsonschema/reference.go b/jsonschema/reference.go
index 5173762..8ff9697 100644
--- a/jsonschema/reference.go
+++ b/jsonschema/reference.go
@@ -5,6 +5,7 @@ import (
 	"fmt"
 	"io"
 	"net/http"
+	"os"
 	"path/filepath"
 	"strings"
 
@@ -145,24 +146,92 @@ func findRefs(data json.RawMessage) ([][]string, error) {
 	return refs, nil
 }
 
+// splitRef separates a reference value into the path of the file and the path of the target within the file.
+func splitRef(ref string) (sourcePath string, target string) {
+	sourcePath, target, _ = strings.Cut(ref, "#")
+	return sourcePath, strings.Trim(target, "/")
+}
+
+// checkCircular returns an error if a reference in the file, or in the files it refers to, leads back to itself.
+// As dereference replaces references with what they refer to it would never finish for such a file.
+func checkCircular(schemaPath string, data json.RawMessage) error {
+	files := map[string]json.RawMessage{schemaPath: data}
+	done := make(map[string]bool) // false while the references which the reference leads to are checked
+
+	// checkRefs checks those references of the file which are within target or which target is within.
+	var checkRefs func(path string, target []string) error
+	checkRefs = func(path string, target []string) error {
+		data, ok := files[path]
+		if !ok {
+			var err error
+			if data, err = os.ReadFile(path); err != nil {
+				return nil // reported when dereferencing
+			}
+			files[path] = data
+		}
+		refs, err := findRefs(data)
+		if err != nil {
+			return nil // reported when dereferencing
+		}
+		_, _, _, err = jsonparser.Get(data, target...)
+		exists := len(target) == 0 || err == nil
+
+		for _, refPath := range refs {
+			parent := refPath[:len(refPath)-1]
+			common := 0
+			for common < len(parent) && common < len(target) && parent[common] == target[common] {
+				common++
+			}
+			if common < len(target) && (exists || common < len(parent)) {
+				continue
+			}
+			ref, err := jsonparser.GetString(data, refPath...)
+			if err != nil {
+				continue
+			}
+
+			sourcePath, refTarget := splitRef(ref)
+			refFile := path
+			if strings.HasPrefix(sourcePath, "http://") || strings.HasPrefix(sourcePath, "https://") {
+				continue
+			} else if sourcePath != "" {
+				if refFile, err = filepath.Abs(filepath.Join(filepath.Dir(path), sourcePath)); err != nil {
+					continue
+				}
+			}
+			var next []string // all references are followed when loading another file
+			if refFile == path {
+				if len(parent) == 0 {
+					continue // not replaced
+				}
+				if refTarget != "" {
+					next = strings.Split(refTarget, "/")
+				}
+			}
+
+			key := path + "|" + strings.Join(refPath, "/")
+			if finished, seen := done[key]; finished {
+				continue
+			} else if seen {
+				return fmt.Errorf("circular reference %q at path %v of file %q", ref, refPath, path)
+			}
+			done[key] = false
+			if err := checkRefs(refFile, next); err != nil {
+				return err
+			}
+			done[key] = true
+		}
+		return nil
+	}
+	return checkRefs(schemaPath, nil)
+}
+
 // resolveRef looks at the reference value passed in as ref and resolves it to a set of JSON.
 // The reference may refer to a definition within the given data or a file reference.
 // For files schemaPath is used to resolve relative references then SchemaFromFile is used to build the file.
 // oneOfType is used by schemaFromFile to select a specific oneOfType.
 func resolveRef(ref string, data json.RawMessage, schemaPath string, oneOfType string, flatten bool) (json.RawMessage, error) {
-	// TODO there is nothing here to stop circular references other than self references
-	var sourcePath, target string
-	splits := strings.SplitN(ref, "#", 2)
-	if len(splits) != 2 {
-		if strings.Contains(ref, "#") {
-			target = strings.Trim(ref, "#/")
-		} else {
-			sourcePath = ref
-		}
-	} else {
-		sourcePath = splits[0]
-		target = strings.Trim(splits[1], "/")
-	}
+	sourcePath, target := splitRef(ref)
 
 	var source json.RawMessage
 
diff --git a/jsonschema/schema.go b/jsonschema/schema.go
index 9d07711..b0e842c 100644
--- a/jsonschema/schema.go
+++ b/jsonschema/schema.go
@@ -137,6 +137,10 @@ func schemaFromFile(schemaLoadPath string, oneOfType string, flatten bool) (*Sch
 			return nil, fmt.Errorf("failed to initialize schema validator: %v", err)
 		}
 
+		if err := checkCircular(schemaPath, data); err != nil {
+			return nil, err
+		}
+
 		// dereferencing during walking is more efficient but more complicated so all dereferencing for a file is done immediately
 		data, err = dereference(schemaPath, data, oneOfType, flatten)
 		if err != nil {
-- 
2.43.0


From 14216787e4e1c7fba2359b48d1af87cd5542514c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:46 +0000
Subject: [PATCH 20/51] fix: references followed by white space and a comma

---
 jsonschema/schema.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/jsonschema/schema.go b/jsonschema/schema.go
index b0e842c..23a7610 100644
--- a/jsonschema/schema.go
+++ b/jsonschema/schema.go
@@ -1,6 +1,7 @@
 package jsonschema
 
 import (
+	"bytes"
 	"encoding/json"
 	"errors"
 	"fmt"
@@ -142,7 +143,12 @@ func schemaFromFile(schemaLoadPath string, oneOfType string, flatten bool) (*Sch
 		}
 
 		// dereferencing during walking is more efficient but more complicated so all dereferencing for a file is done immediately
-		data, err = dereference(schemaPath, data, oneOfType, flatten)
+		// deleting a $ref along with its comma does not work with white space in front of the comma
+		var compact bytes.Buffer
+		if err := json.Compact(&compact, data); err != nil {
+			return nil, fmt.Errorf("failed to parse schema file %q: %v", schemaPath, err)
+		}
+		data, err = dereference(schemaPath, compact.Bytes(), oneOfType, flatten)
 		if err != nil {
 			return nil, fmt.Errorf("failed to Dereference Schema: %v", err)
 		}
-- 
2.43.0


From 8f2831c7c7fa88125d29b6315b5320f033435a09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:26 +0000
Subject: [PATCH 21/51] fix: quote descriptions in struct tags

---
 generate/avro.go   |  7 ++++++-
 generate/struct.go | 10 ++++++++--
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/generate/avro.go b/generate/avro.go
index 071a13d..8f401e3 100644
--- a/generate/avro.go
+++ b/generate/avro.go
@@ -12,6 +12,7 @@ import (
 	"os"
 	"path/filepath"
 	"reflect"
+	"strconv"
 	"strings"
 
 	"github.com/actgardner/gogen-avro/v7/generator"
@@ -240,7 +241,11 @@ func parseStructTag(literal *ast.BasicLit) (name, description string, omitEmpty
 	if literal == nil {
 		return
 	}
-	tag := reflect.StructTag(strings.Trim(literal.Value, "`"))
+	value, err := strconv.Unquote(literal.Value)
+	if err != nil {
+		value = strings.Trim(literal.Value, "`")
+	}
+	tag := reflect.StructTag(value)
 
 	description = tag.Get("description")
 	jsonValue := tag.Get("json")
diff --git a/generate/struct.go b/generate/struct.go
index c0adea1..51e6a2f 100644
--- a/generate/struct.go
+++ b/generate/struct.go
@@ -7,6 +7,7 @@ import (
 	"io"
 	"path/filepath"
 	"sort"
+	"strconv"
 	"strings"
 
 	"github.com/GannettDigital/jstransform/jsonschema"
@@ -42,9 +43,14 @@ func (ef *extractedField) write(w io.Writer, prefix string, required, descriptio
 	jsonTag := fmt.Sprintf(`json:"%s%s"`, ef.jsonName, omitempty)
 	var description string
 	if descriptionAsStructTag && ef.description != "" {
-		description = fmt.Sprintf(`description:"%s"`, strings.Split(ef.description, "\n")[0])
+		description = fmt.Sprintf(`description:%q`, strings.Split(ef.description, "\n")[0])
+	}
+	structTag := strings.Trim(strings.Join([]string{jsonTag, description}, " "), " ")
+	if strings.Contains(structTag, "`") {
+		structTag = strconv.Quote(structTag) + "\n"
+	} else {
+		structTag = "`" + structTag + "`\n"
 	}
-	structTag := fmt.Sprintf("`%s`\n", strings.Trim(strings.Join([]string{jsonTag, description}, " "), " "))
 
 	if !descriptionAsStructTag && ef.description != "" {
 		for _, line := range strings.Split(ef.description, "\n") {
-- 
2.43.0


From cefca490fb232f870242104aa1f3efbaf262cbde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:00 +0000
Subject: [PATCH 22/51] fix: pointers to nested structs which are not generated
 because they have no fields

---
 generate/struct.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/generate/struct.go b/generate/struct.go
index 51e6a2f..a1f5c87 100644
--- a/generate/struct.go
+++ b/generate/struct.go
@@ -439,7 +439,7 @@ func (ef *extractedField) goType(required, pointers bool, nestedStructs map[stri
 	default:
 		// TODO: use additionalProperties JSON schema value to more intelligently create the target type\
 		// when no nested struct
-		if ns := nestedStructs[ef.jsonType]; ns != nil && len(ns.fields) == 0 && !ns.array {
+		if ns := nestedStructs[strings.TrimPrefix(ef.jsonType, "*")]; ns != nil && len(ns.fields) == 0 && !ns.array {
 			goType = "map[string]string"
 		} else {
 			goType = ef.jsonType
-- 
2.43.0


From ac6239bd4c958aebff1120a9123da7d90beb0617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:06 +0000
Subject: [PATCH 23/51] fix: generate structs which only embed others

---
 generate/struct.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/generate/struct.go b/generate/struct.go
index a1f5c87..197c675 100644
--- a/generate/struct.go
+++ b/generate/struct.go
@@ -274,7 +274,7 @@ func (gof *goFile) write(w io.Writer) error {
 	}
 
 	for _, s := range gof.structs() {
-		if len(s.fields) == 0 {
+		if len(s.fields) == 0 && len(s.embededStructs) == 0 {
 			continue
 		}
 		if _, err := buf.Write([]byte("\n\n")); err != nil {
-- 
2.43.0


From d04577e58d5b77043969d305dcc22ffcf6336a0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:12 +0000
Subject: [PATCH 24/51] fix: embed a struct once when the root and the oneOf
 file have it in allOf

---
 generate/struct.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/generate/struct.go b/generate/struct.go
index 197c675..85d7a1c 100644
--- a/generate/struct.go
+++ b/generate/struct.go
@@ -161,7 +161,9 @@ func newGeneratedGoFile(schema *jsonschema.Schema, name, packageName string, emb
 			} else {
 				ref = exportedName(ref)
 			}
-			gof.rootStruct.embededStructs = append(gof.rootStruct.embededStructs, ref)
+			if !slices.Contains(gof.rootStruct.embededStructs, ref) {
+				gof.rootStruct.embededStructs = append(gof.rootStruct.embededStructs, ref)
+			}
 		}
 	}
 
-- 
2.43.0


From dda4b600abfedcdeace9cef1cb2c3b0eb3e79c39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:11 +0000
Subject: [PATCH 25/51] fix: keep the fields of allOf entries which cannot be
 embedded

---
 generate/struct.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/generate/struct.go b/generate/struct.go
index 85d7a1c..415c5f7 100644
--- a/generate/struct.go
+++ b/generate/struct.go
@@ -155,6 +155,17 @@ func newGeneratedGoFile(schema *jsonschema.Schema, name, packageName string, emb
 
 	if args.EmbedAllOf {
 		for _, all := range schema.AllOf {
+			if all.FromRef == "" { // there is no struct to embed so its fields become part of this one
+				for name, property := range all.Properties {
+					if _, ok := schema.Properties[name]; !ok {
+						schema.Properties[name] = property
+					}
+				}
+				for _, fname := range all.Required {
+					required[fname] = true
+				}
+				continue
+			}
 			ref := strings.Split(filepath.Base(all.FromRef), ".")[0]
 			if newName, ok := args.StructNameMap[ref]; ok {
 				ref = newName
-- 
2.43.0


From ac2b63544e87f261c9747ad3a659b6e6a247a50a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:17 +0000
Subject: [PATCH 26/51] fix: leave out the description of fields which are left
 out

---
 generate/struct.go | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/generate/struct.go b/generate/struct.go
index 415c5f7..73aae69 100644
--- a/generate/struct.go
+++ b/generate/struct.go
@@ -52,14 +52,6 @@ func (ef *extractedField) write(w io.Writer, prefix string, required, descriptio
 		structTag = "`" + structTag + "`\n"
 	}
 
-	if !descriptionAsStructTag && ef.description != "" {
-		for _, line := range strings.Split(ef.description, "\n") {
-			if _, err := w.Write([]byte(fmt.Sprintf("// %s\n", line))); err != nil {
-				return err
-			}
-		}
-	}
-
 	fieldGoType := ef.goType(required, pointers, nestedStructs)
 	if excludeNested[fieldGoType] || fieldGoType == "[]" {
 		// Sometimes the schema has only GraphQL hydration fields at a particular level.
@@ -68,6 +60,14 @@ func (ef *extractedField) write(w io.Writer, prefix string, required, descriptio
 		// Otherwise the model would contain the fields only generated by resolvers.
 		return nil
 	}
+	if !descriptionAsStructTag && ef.description != "" {
+		for _, line := range strings.Split(ef.description, "\n") {
+			if _, err := w.Write([]byte(fmt.Sprintf("// %s\n", line))); err != nil {
+				return err
+			}
+		}
+	}
+
 	if ef.jsonType != "object" || len(ef.fields) == 0 {
 		_, err := w.Write([]byte(fmt.Sprintf("%s%s\t%s\t%s", prefix, ef.name, fieldGoType, structTag)))
 		return err
-- 
2.43.0


From 200976efb77dab91e1be225831897d9ea9c07f24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:23 +0000
Subject: [PATCH 27/51] fix: report union types with objects when there are no
 nested structs

---
 generate/struct.go | 30 +++++++++++++++++++++---------
 1 file changed, 21 insertions(+), 9 deletions(-)

diff --git a/generate/struct.go b/generate/struct.go
index 73aae69..179d9d3 100644
--- a/generate/struct.go
+++ b/generate/struct.go
@@ -241,6 +241,9 @@ func (gof *goFile) walkFunc(path string, i jsonschema.Instance) error {
 
 	// If the types is an object create a new generated struct for it
 	if slices.Contains(i.Type, "object") {
+		if _, err := singleType(i.Type); err != nil {
+			return err
+		}
 		key := strings.Join(parts, "")
 		structType := key
 
@@ -368,15 +371,9 @@ func addField(fields extractedFields, tree []string, inst jsonschema.Instance, f
 		if !ok {
 			fieldName = tree[0]
 		}
-		var jsonType string
-		for _, iType := range inst.Type {
-			if iType == "null" {
-				continue
-			}
-			if jsonType != "" {
-				return fmt.Errorf("cannot generate structures for union types of %q and %q", jsonType, iType)
-			}
-			jsonType = iType
+		jsonType, err := singleType(inst.Type)
+		if err != nil {
+			return err
 		}
 		f := &extractedField{
 			description: inst.Description,
@@ -416,6 +413,21 @@ func addField(fields extractedFields, tree []string, inst jsonschema.Instance, f
 	return nil
 }
 
+// singleType returns the type which types has besides null, there can be at most one.
+func singleType(types []string) (string, error) {
+	var jsonType string
+	for _, iType := range types {
+		if iType == "null" {
+			continue
+		}
+		if jsonType != "" {
+			return "", fmt.Errorf("cannot generate structures for union types of %q and %q", jsonType, iType)
+		}
+		jsonType = iType
+	}
+	return jsonType, nil
+}
+
 // goType maps a jsonType to a string representation of the go type.
 // If Array is true it makes the type into an array.
 // If the JSON Schema had a type of "string" and a format of "date-time" it is expected the input jsonType will be
-- 
2.43.0


From d2e6e693b4fca0b683c7f8dc05e83770d57cbe24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:37 +0000
Subject: [PATCH 28/51] fix: report fields which would have the same name

---
 generate/struct.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/generate/struct.go b/generate/struct.go
index 179d9d3..451a9db 100644
--- a/generate/struct.go
+++ b/generate/struct.go
@@ -382,6 +382,11 @@ func addField(fields extractedFields, tree []string, inst jsonschema.Instance, f
 			jsonType:    jsonType,
 			nullable:    slices.Contains(inst.Type, "null"),
 		}
+		for _, other := range fields {
+			if other.name == f.name && other.jsonName != f.jsonName {
+				return fmt.Errorf("fields %q and %q would both be named %q", other.jsonName, f.jsonName, f.name)
+			}
+		}
 		// Second processing of an array type
 		if exists, ok := fields[f.jsonName]; ok {
 			f = exists
-- 
2.43.0


From 5ec75334cfe2f58df6ac582662e4c6773af2de3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:43 +0000
Subject: [PATCH 29/51] fix: report nested structs which would have the same
 name

---
 generate/struct.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/generate/struct.go b/generate/struct.go
index 451a9db..67a2e3b 100644
--- a/generate/struct.go
+++ b/generate/struct.go
@@ -257,6 +257,9 @@ func (gof *goFile) walkFunc(path string, i jsonschema.Instance) error {
 			requiredFields[name] = true
 		}
 
+		if gof.nestedStructs[key] != nil {
+			return fmt.Errorf("more than one nested struct would be named %q", key)
+		}
 		gof.nestedStructs[key] = gof.newGeneratedStruct(key, requiredFields)
 		return addField(gen.fields, []string{name}, jsonschema.Instance{Description: i.Description, Type: []string{structType}}, gen.args.FieldNameMap)
 	}
-- 
2.43.0


From a5664a8ef5f1043496104610b77287e438a42c83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:37 +0000
Subject: [PATCH 30/51] fix: escape quotes in GraphQL descriptions

---
 generate/graphql.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/generate/graphql.go b/generate/graphql.go
index 9965b3d..7123cb1 100644
--- a/generate/graphql.go
+++ b/generate/graphql.go
@@ -747,8 +747,9 @@ func (ef *gqlExtractedField) graphqlType(required, pointers bool) (string, strin
 // graphqlComment takes a string and returns GraphQL comment syntax.
 func graphqlComment(prefix, description string) string {
 	if strings.IndexRune(description, '\n') < 0 {
-		return fmt.Sprintf("%s\"%s\"\n", prefix, description)
+		return fmt.Sprintf("%s\"%s\"\n", prefix, strings.NewReplacer(`\`, `\\`, `"`, `\"`).Replace(description))
 	}
+	description = strings.ReplaceAll(description, `"""`, `\"""`)
 	// Multi-line descriptions get the """ comment syntax.
 	newDescription := prefix + `"""` + "\n"
 	for _, line := range strings.Split(description, "\n") {
-- 
2.43.0


From ae427ceb8679b17a8b9ecd5f779daac220210531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:43 +0000
Subject: [PATCH 31/51] fix: arrays which may be null are nullable in GraphQL

---
 generate/graphql.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/generate/graphql.go b/generate/graphql.go
index 7123cb1..93b4282 100644
--- a/generate/graphql.go
+++ b/generate/graphql.go
@@ -643,9 +643,9 @@ func (gen *gqlExtractedField) addField(tree []string, gqlTypeName []string, inst
 		switch f.jsonType {
 		case "array":
 			f.jsonType = ""
-			f.nullable = false
 			f.array = true
 			f.arrayNullable = f.nullable
+			f.nullable = false
 
 			totalDescription := fmt.Sprintf("The total length of the %s list at this same level in the data, this number is unaffected by filtering.", fieldName)
 			// If the field this is a total of is deprecated then also use its deprecation message (first line of description).
-- 
2.43.0


From ad040e096eda1450d2224773cae04e0a14d4020d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:49 +0000
Subject: [PATCH 32/51] fix: use the same name for a GraphQL interface and what
 implements it

---
 generate/graphql.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/generate/graphql.go b/generate/graphql.go
index 93b4282..24aebe7 100644
--- a/generate/graphql.go
+++ b/generate/graphql.go
@@ -138,13 +138,13 @@ func buildGraphQLFile(schemaPath, name, packageName string, args BuildArgs) erro
 		}
 		if len(common) != 0 {
 			obj.rootStruct.gqlExtractedField.jsonName = exportedName(packageName)
-			name := strings.Split(filepath.Base(schema.AllOf[0].FromRef), ".")[0]
-			if newName, ok := args.StructNameMap[name]; ok {
-				name = newName
+			baseName := strings.Split(filepath.Base(schema.AllOf[0].FromRef), ".")[0]
+			if newName, ok := args.StructNameMap[baseName]; ok {
+				baseName = newName
 			} else {
-				name = exportedName(name)
+				baseName = exportedName(baseName)
 			}
-			obj.rootStruct.gqlExtractedField.name = name
+			obj.rootStruct.gqlExtractedField.name = baseName
 			for _, com := range common {
 				commonFields += len(com.rootStruct.fields)
 				for fk, fv := range com.rootStruct.fields {
@@ -159,10 +159,10 @@ func buildGraphQLFile(schemaPath, name, packageName string, args BuildArgs) erro
 				}
 			}
 			if len(schema.OneOf) != 0 {
-				if newName, ok := args.GraphQLTypeNameMap[packageName]; ok {
+				if newName, ok := args.GraphQLTypeNameMap[name]; ok {
 					obj.rootStruct.gqlExtractedField.jsonName = newName
 				} else {
-					obj.rootStruct.gqlExtractedField.jsonName = exportedName(packageName)
+					obj.rootStruct.gqlExtractedField.jsonName = exportedName(name)
 				}
 				obj.rootStruct.gqlExtractedField.name = obj.rootStruct.gqlExtractedField.jsonName
 				obj.rootStruct.buildType = "interface"
-- 
2.43.0


From 32190bb21cb09f84f66e16bf322a00f31c81699d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:11 +0000
Subject: [PATCH 33/51] fix: keep the allOf fields of one GraphQL
 implementation out of the next

---
 generate/graphql.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/generate/graphql.go b/generate/graphql.go
index 24aebe7..bd57e9f 100644
--- a/generate/graphql.go
+++ b/generate/graphql.go
@@ -190,6 +190,7 @@ func buildGraphQLFile(schemaPath, name, packageName string, args BuildArgs) erro
 			}
 			generated.rootStruct.implements = implements
 		}
+		merged := common[:len(common):len(common)]
 		if args.EmbedAllOf && len(oneOfSchema.AllOf) != 0 {
 			for _, allOf := range oneOfSchema.AllOf {
 				baseName := strings.Split(filepath.Base(allOf.FromRef), ".")[0]
@@ -197,7 +198,7 @@ func buildGraphQLFile(schemaPath, name, packageName string, args BuildArgs) erro
 				if err != nil {
 					return fmt.Errorf("failed to build generated struct: %w", err)
 				}
-				common = append(common, allOfGen)
+				merged = append(merged, allOfGen)
 			}
 		}
 
@@ -208,7 +209,7 @@ func buildGraphQLFile(schemaPath, name, packageName string, args BuildArgs) erro
 		lfo := generated.rootStruct.fieldOrder
 		generated.rootStruct.fields = make(map[string]*gqlExtractedField, len(generated.rootStruct.fields)+commonFields)
 		generated.rootStruct.fieldOrder = make([]string, 0, len(generated.rootStruct.fields)+commonFields)
-		for _, com := range common {
+		for _, com := range merged {
 			for fk, fv := range com.rootStruct.fields {
 				generated.rootStruct.fields[fk] = fv
 				generated.rootStruct.fieldOrder = append(generated.rootStruct.fieldOrder, fk)
-- 
2.43.0


From 14ac6c6b2c2e9f0059d3e4c2ac8188562487759a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:45 +0000
Subject: [PATCH 34/51] fix: report GraphQL fields with the name of the length
 of an array

---
 generate/graphql.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/generate/graphql.go b/generate/graphql.go
index bd57e9f..fa09020 100644
--- a/generate/graphql.go
+++ b/generate/graphql.go
@@ -655,6 +655,9 @@ func (gen *gqlExtractedField) addField(tree []string, gqlTypeName []string, inst
 				totalDescription = lines[0] + "\n" + totalDescription
 			}
 			totalName := "total" + f.name
+			if _, ok := gen.fields[totalName]; ok {
+				return fmt.Errorf("field %q already exists, it can't be the total length of %q", totalName, f.jsonName)
+			}
 			gen.fields[totalName] = &gqlExtractedField{
 				description: totalDescription,
 				name:        exportedName(totalName),
-- 
2.43.0


From c0b2a9988cc7a7831c1f2b5a711525cf24612cb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:51 +0000
Subject: [PATCH 35/51] fix: keep GraphQL fields whose Go names are the same

---
 generate/graphql.go | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/generate/graphql.go b/generate/graphql.go
index fa09020..80b9599 100644
--- a/generate/graphql.go
+++ b/generate/graphql.go
@@ -314,21 +314,20 @@ func (ef *gqlExtractedField) write(w io.Writer, prefix string, required, descrip
 	return nil
 }
 
-// Sorted will return the fields in a sorted list. The sort is a string sort on the keys.
+// Sorted will return the fields in a sorted list. The sort is a string sort on the names.
 func (efs gqlExtractedFields) Sorted() []*gqlExtractedField {
-	var sortedKeys sort.StringSlice
-	fieldsByName := make(map[string]*gqlExtractedField, len(efs))
+	sorted := make([]*gqlExtractedField, 0, len(efs))
 	for _, f := range efs {
-		sortedKeys = append(sortedKeys, f.name)
-		fieldsByName[f.name] = f
+		sorted = append(sorted, f)
 	}
 
-	sortedKeys.Sort()
-
-	sorted := make([]*gqlExtractedField, 0, len(sortedKeys))
-	for _, key := range sortedKeys {
-		sorted = append(sorted, fieldsByName[key])
-	}
+	// fields whose Go names are the same stay apart, their GraphQL names are not
+	sort.Slice(sorted, func(i, j int) bool {
+		if sorted[i].name != sorted[j].name {
+			return sorted[i].name < sorted[j].name
+		}
+		return sorted[i].jsonName < sorted[j].jsonName
+	})
 
 	return sorted
 }
-- 
2.43.0


From 928ffc940ec065706d59e8e8da393ae4f35eea84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:57 +0000
Subject: [PATCH 36/51] fix: generate the nested GraphQL types of allOf in a
 oneOf file

---
 generate/graphql.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/generate/graphql.go b/generate/graphql.go
index 80b9599..957dc23 100644
--- a/generate/graphql.go
+++ b/generate/graphql.go
@@ -173,6 +173,14 @@ func buildGraphQLFile(schemaPath, name, packageName string, args BuildArgs) erro
 		}
 	}
 
+	// The nested types of AllOf definitions are generated once.
+	nestedDone := make(map[string]bool)
+	for _, com := range common {
+		for nk := range com.nestedStructs {
+			nestedDone[nk] = true
+		}
+	}
+
 	// If the schema has one or more OneOf definitions then these are the Implementations of the Interface type.
 	for _, oneOfSchema := range schema.OneOf {
 		oneOfName := strings.Split(filepath.Base(oneOfSchema.FromRef), ".")[0]
@@ -199,6 +207,12 @@ func buildGraphQLFile(schemaPath, name, packageName string, args BuildArgs) erro
 					return fmt.Errorf("failed to build generated struct: %w", err)
 				}
 				merged = append(merged, allOfGen)
+				for nk, nv := range allOfGen.nestedStructs {
+					if !nestedDone[nk] {
+						generated.nestedStructs[nk] = nv
+						nestedDone[nk] = true
+					}
+				}
 			}
 		}
 
-- 
2.43.0


From 86adb45eb1a853430e9df33244d091275804afd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:51 +0000
Subject: [PATCH 37/51] fix: GraphQL arrays whose items have a target

---
 generate/graphql.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/generate/graphql.go b/generate/graphql.go
index 957dc23..3f88371 100644
--- a/generate/graphql.go
+++ b/generate/graphql.go
@@ -640,9 +640,13 @@ func (gen *gqlExtractedField) addField(tree []string, gqlTypeName []string, inst
 				}
 				// Need to preserve the value if this array's item type had a GraphQL hydration target.
 				if f.target == "" && inst.Target != "" {
-					f.target = "[" + inst.Target + "]"
-					if !(f.nullable || gen.args.Pointers && !gen.requiredFields[f.jsonName]) {
-						f.target += "!"
+					f.target = inst.Target
+					// Hydrations are written as they are, the types of other items are made into an array later.
+					if f.jsonType == "graphql-hydration" {
+						f.target = "[" + inst.Target + "]"
+						if !(f.nullable || gen.args.Pointers && !gen.requiredFields[f.jsonName]) {
+							f.target += "!"
+						}
 					}
 				}
 			} else {
-- 
2.43.0


From 3c10d1b9996b664e987390cdc413e4a2fae6a08c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:29 +0000
Subject: [PATCH 38/51] fix: report union types with objects for GraphQL

---
 generate/graphql.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/generate/graphql.go b/generate/graphql.go
index 3f88371..aecf8cf 100644
--- a/generate/graphql.go
+++ b/generate/graphql.go
@@ -463,6 +463,9 @@ func (gof *goGQL) walkFunc(path string, i jsonschema.Instance) error {
 
 	// If the types is an object create a new generated struct for it
 	if slices.Contains(i.Type, "object") {
+		if _, err := singleType(i.Type); err != nil {
+			return err
+		}
 		key := strings.Join(parts, "")
 		structType := key
 
-- 
2.43.0


From cac2285b8d7855d5484964d24a964a3d1ac0f2f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:29 +0000
Subject: [PATCH 39/51] fix: generate structs without fields when others may
 embed them

---
 generate/struct.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/generate/struct.go b/generate/struct.go
index 67a2e3b..961bb65 100644
--- a/generate/struct.go
+++ b/generate/struct.go
@@ -293,7 +293,8 @@ func (gof *goFile) write(w io.Writer) error {
 	}
 
 	for _, s := range gof.structs() {
-		if len(s.fields) == 0 && len(s.embededStructs) == 0 {
+		// the struct of the file itself may be embedded in others
+		if s != gof.rootStruct && len(s.fields) == 0 {
 			continue
 		}
 		if _, err := buf.Write([]byte("\n\n")); err != nil {
-- 
2.43.0


From afc150d005bb5228e1cf568eed039ecdb3f3c0dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:49 +0000
Subject: [PATCH 40/51] fix: no pointers to maps, message pack cannot serialize
 them

---
 generate/struct.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/generate/struct.go b/generate/struct.go
index 961bb65..9e214a0 100644
--- a/generate/struct.go
+++ b/generate/struct.go
@@ -480,7 +480,8 @@ func (ef *extractedField) goType(required, pointers bool, nestedStructs map[stri
 			customType = true
 		}
 	}
-	if !customType && ef.nullable {
+	// maps can be nil themselves
+	if !customType && ef.nullable && !strings.HasPrefix(goType, "map[") {
 		goType = "*" + goType
 	}
 	if ef.array {
-- 
2.43.0


From a6c3d4aaa7e78190bc16eb675b464ff970e57c32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:08 +0000
Subject: [PATCH 41/51] fix: Avro times outside of the years a number of
 nanoseconds can hold

---
 generate/avro_helpers.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/generate/avro_helpers.go b/generate/avro_helpers.go
index c3dbdc0..e58b5f3 100644
--- a/generate/avro_helpers.go
+++ b/generate/avro_helpers.go
@@ -56,7 +56,7 @@ type AvroCFDeleter interface {
 // AvroTime converts the given time.Time into an int64 compatible with an Avro timestamp.millis logical type.
 // http://avro.apache.org/docs/current/spec.html#Date
 func AvroTime(t time.Time) int64 {
-	return t.UnixNano() / (int64(time.Millisecond) / int64(time.Nanosecond))
+	return t.UnixMilli()
 }
 
 // AvroTimeSlice converts the given []time.Time into a []int64 leveraging AvroTime.
@@ -75,7 +75,7 @@ func AvroOptionalTime(t *time.Time) int64 {
 	if t == nil {
 		return 0
 	}
-	return t.UnixNano() / (int64(time.Millisecond) / int64(time.Nanosecond))
+	return t.UnixMilli()
 }
 
 // AvroOptionalTimeSlice converts the given []time.Time into a []int64 leveraging AvroTime
-- 
2.43.0


From e8248f50f39d0ae4f34fe79d5d309930ac0e2e62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:55 +0000
Subject: [PATCH 42/51] fix: Avro schemas of structs the last fields of which
 are skipped

---
 generate/avro.go | 30 +++++++++++++++++++++++-------
 1 file changed, 23 insertions(+), 7 deletions(-)

diff --git a/generate/avro.go b/generate/avro.go
index 8f401e3..cfa68e2 100644
--- a/generate/avro.go
+++ b/generate/avro.go
@@ -23,7 +23,7 @@ import (
 )
 
 const (
-	metadataFields = `{"name":"AvroWriteTime","doc":"The timestamp when this avro data is written. Useful for identifying the newest row of data sharing keys.","type":"long","logicalType":"timestamp-millis"},{"name":"AvroDeleted","doc":"This is set to true when the Avro data is recording a delete in the source data.","default":false,"type":"boolean"},`
+	metadataFields = `{"name":"AvroWriteTime","doc":"The timestamp when this avro data is written. Useful for identifying the newest row of data sharing keys.","type":"long","logicalType":"timestamp-millis"},{"name":"AvroDeleted","doc":"This is set to true when the Avro data is recording a delete in the source data.","default":false,"type":"boolean"}`
 )
 
 type avroConfig struct {
@@ -286,7 +286,14 @@ func writeAvroStruct(cfg avroConfig, name, defaultFields string) astutil.ApplyFu
 		}
 
 		if list, ok := n.(*ast.FieldList); ok {
-			writeAvroFields(cfg, list)
+			buf := &bytes.Buffer{}
+			fieldsCfg := cfg
+			fieldsCfg.writer = buf
+			writeAvroFields(fieldsCfg, list)
+			if defaultFields != "" && buf.Len() > 0 {
+				fmt.Fprint(cfg.writer, ",")
+			}
+			fmt.Fprint(cfg.writer, buf.String())
 			return false
 		}
 
@@ -338,8 +345,8 @@ func writeAvroField(cfg avroConfig, f *ast.Field, fieldMap map[string]bool) bool
 	return true
 }
 
-// writeAvroFields loops through a list of fields in a struct writing out the Avro values for the fields and adding
-// trailing commas as appropriate for JSON.
+// writeAvroFields loops through a list of fields in a struct writing out the Avro values for the fields separated by
+// commas. Fields which are skipped, including embedded structs all fields of which are, leave nothing behind.
 func writeAvroFields(cfg avroConfig, list *ast.FieldList) {
 	length := list.NumFields()
 
@@ -350,11 +357,20 @@ func writeAvroFields(cfg avroConfig, list *ast.FieldList) {
 			fieldMap[f.Names[0].Name] = true
 		}
 	}
-	for i, f := range list.List {
-		processed := writeAvroField(cfg, f, fieldMap)
-		if processed && i+1 != length {
+	written := 0
+	for _, f := range list.List {
+		buf := &bytes.Buffer{}
+		fieldCfg := cfg
+		fieldCfg.writer = buf
+		writeAvroField(fieldCfg, f, fieldMap)
+		if buf.Len() == 0 {
+			continue
+		}
+		if written > 0 {
 			fmt.Fprint(cfg.writer, ",")
 		}
+		fmt.Fprint(cfg.writer, buf.String())
+		written++
 	}
 }
 
-- 
2.43.0


From 337266341301a14d9d1a0f6ffbc30688690662a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:57 +0000
Subject: [PATCH 43/51] fix: Avro with embedded structs which are renamed

---
 generate/avro.go         | 11 ++++++++++-
 generate/avro_helpers.go |  2 +-
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/generate/avro.go b/generate/avro.go
index cfa68e2..252dad3 100644
--- a/generate/avro.go
+++ b/generate/avro.go
@@ -188,6 +188,15 @@ func parseGoStruct(name, path string) (*ast.TypeSpec, error) {
 	return t, nil
 }
 
+// parseEmbeddedGoStruct finds the named struct in the go files of dir, normally it is in a file of the same name but with
+// renamed structs it can be in any of them.
+func parseEmbeddedGoStruct(name, dir string) (*ast.TypeSpec, error) {
+	if spec, err := parseGoStruct(name, filepath.Join(dir, structToFilename(name))); err == nil {
+		return spec, nil
+	}
+	return parseGoStruct(name, dir)
+}
+
 // filterPackage will filter all the go files found at the path returning a *ast.File containing name.
 func filterPackage(name, path string) (*ast.File, error) {
 	fileSet := token.NewFileSet()
@@ -376,7 +385,7 @@ func writeAvroFields(cfg avroConfig, list *ast.FieldList) {
 
 func writeEmbeddedStructFields(cfg avroConfig) {
 	structName := cfg.namespace[len(cfg.namespace)-1]
-	spec, err := parseGoStruct(structName, filepath.Join(cfg.dir, structToFilename(structName)))
+	spec, err := parseEmbeddedGoStruct(structName, cfg.dir)
 	if err != nil {
 		fmt.Fprint(cfg.writer, `{"type":"embedded struct not found"}`)
 		return
diff --git a/generate/avro_helpers.go b/generate/avro_helpers.go
index e58b5f3..cba3ccc 100644
--- a/generate/avro_helpers.go
+++ b/generate/avro_helpers.go
@@ -508,7 +508,7 @@ func mapFields(list *ast.FieldList, srcDir string) (map[string]*ast.Field, error
 				continue
 			}
 			embedName := t.Name
-			embedStruct, err := parseGoStruct(embedName, filepath.Join(srcDir, structToFilename(embedName)))
+			embedStruct, err := parseEmbeddedGoStruct(embedName, srcDir)
 			if err != nil {
 				return nil, fmt.Errorf("failed to parse embedded go struct %q: %v", embedName, err)
 			}
-- 
2.43.0


From 2b09d48728bce5dd1bde58ff24d9e03231127699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:58 +0000
Subject: [PATCH 44/51] fix: Avro fields which are repeated in structs embedded
 in embedded ones

---
 generate/avro.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/generate/avro.go b/generate/avro.go
index 252dad3..02beaac 100644
--- a/generate/avro.go
+++ b/generate/avro.go
@@ -324,7 +324,13 @@ func writeAvroField(cfg avroConfig, f *ast.Field, fieldMap map[string]bool) bool
 		}
 		newcfg := cfg
 		newcfg.namespace = append(cfg.namespace, t.Name)
-		newcfg.excludeFields = fieldMap
+		newcfg.excludeFields = make(map[string]bool, len(cfg.excludeFields)+len(fieldMap))
+		for name := range cfg.excludeFields {
+			newcfg.excludeFields[name] = true
+		}
+		for name := range fieldMap {
+			newcfg.excludeFields[name] = true
+		}
 		writeEmbeddedStructFields(newcfg)
 		return true
 	}
-- 
2.43.0


From 0fdc97efb3e589a75018a873d36f8f9ce2b80fd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:59 +0000
Subject: [PATCH 45/51] fix: Avro arrays of objects with optional times, maps
 or arrays of those

---
 generate/avro_helpers.go | 48 +++++++++++++++++++---------------------
 1 file changed, 23 insertions(+), 25 deletions(-)

diff --git a/generate/avro_helpers.go b/generate/avro_helpers.go
index cba3ccc..60f52c5 100644
--- a/generate/avro_helpers.go
+++ b/generate/avro_helpers.go
@@ -545,36 +545,34 @@ func printFields(list *ast.FieldList) string {
 			// Embedded struct, skipping for this
 			continue
 		}
-		name := f.Names[0]
-
-		switch fType := f.Type.(type) {
-		case *ast.Ident:
-			out += fmt.Sprintf("%s %s %s\n", name, fType.Name, f.Tag.Value)
-		case *ast.ArrayType:
-			// Handle the case where an array of structs is inside an array of structs.
-			str, ok := fType.Elt.(*ast.StructType)
-			if ok {
-				out += fmt.Sprintf("%s []struct{\n%s} %s\n", name, printFields(str.Fields), f.Tag.Value)
-				continue
-			}
-
-			ident, ok := fType.Elt.(*ast.Ident)
-			if !ok {
-				return "unknown array type"
-			}
-			out += fmt.Sprintf("%s []%s %s\n", name, ident.Name, f.Tag.Value)
-		case *ast.SelectorExpr:
-			if fType.Sel.Name != "Time" {
-				return fmt.Sprintf(`unsupported type %q`, fType.Sel.Name)
-			}
-			out += fmt.Sprintf("%s time.Time %s\n", name, f.Tag.Value)
-		case *ast.StructType:
-			out += fmt.Sprintf("%s struct{\n%s} %s\n", name, printFields(fType.Fields), f.Tag.Value)
+		tag := ""
+		if f.Tag != nil {
+			tag = f.Tag.Value
 		}
+		out += fmt.Sprintf("%s %s %s\n", f.Names[0], printType(f.Type), tag)
 	}
 	return out
 }
 
+// printType outputs the type of a field as it was read from the original code.
+func printType(expr ast.Expr) string {
+	switch t := expr.(type) {
+	case *ast.Ident:
+		return t.Name
+	case *ast.StarExpr:
+		return "*" + printType(t.X)
+	case *ast.ArrayType:
+		return "[]" + printType(t.Elt)
+	case *ast.MapType:
+		return fmt.Sprintf("map[%s]%s", printType(t.Key), printType(t.Value))
+	case *ast.SelectorExpr:
+		return fmt.Sprintf("%s.%s", printType(t.X), t.Sel.Name)
+	case *ast.StructType:
+		return fmt.Sprintf("struct{\n%s}", printFields(t.Fields))
+	}
+	return fmt.Sprintf("unsupported type %q", fmt.Sprintf("%T", expr))
+}
+
 // writeCodeTemplate will execute a template from src with values and write to path.
 // The assumption is this is go code so it will have standard go formatting applied.
 func writeCodeTemplate(src string, values map[string]string, path string) error {
-- 
2.43.0


From 69a0ed2ffcea9cf8952bfcb708c40ba825e88d91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:00 +0000
Subject: [PATCH 46/51] fix: Avro fields the name of which starts with Avro
 stayed empty

---
 generate/avro_helpers.go | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/generate/avro_helpers.go b/generate/avro_helpers.go
index 60f52c5..afb0f71 100644
--- a/generate/avro_helpers.go
+++ b/generate/avro_helpers.go
@@ -193,7 +193,16 @@ func (fm *avroFieldMapper) generate() (mappedFields, error) {
 		return mappedFields{}, errors.New("failed to parse fields from avro go struct")
 	}
 
-	return fm.generateFields("", avroFields, generatedFieldsMap)
+	// skip metadata fields which are populated in the templated code
+	dataFields := &ast.FieldList{}
+	for _, f := range avroFields.List {
+		if len(f.Names) == 1 && (f.Names[0].Name == "AvroWriteTime" || f.Names[0].Name == "AvroDeleted") {
+			continue
+		}
+		dataFields.List = append(dataFields.List, f)
+	}
+
+	return fm.generateFields("", dataFields, generatedFieldsMap)
 }
 
 // generateChildStruct creates a mappedFields similar to generate but with a few starting assumptions appropriate for
@@ -247,9 +256,6 @@ func (fm *avroFieldMapper) generateFields(prefix string, avroFields *ast.FieldLi
 			return mappedFields{}, errors.New("unknown embedded field in Avro struct")
 		}
 		name := f.Names[0].Name
-		if strings.HasPrefix(name, "Avro") { // skip metadata fields which are populated in the templated code
-			continue
-		}
 		generatedField, ok := generatedFieldsMap[name]
 		if !ok {
 			return mappedFields{}, fmt.Errorf("no mapping found for field %q", name)
-- 
2.43.0


From df9a4b82a958d85ef24123260489b663aefb367f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:01 +0000
Subject: [PATCH 47/51] fix: Avro fields with names of methods of the generated
 code

---
 generate/avro_helpers.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/generate/avro_helpers.go b/generate/avro_helpers.go
index afb0f71..64a59b0 100644
--- a/generate/avro_helpers.go
+++ b/generate/avro_helpers.go
@@ -287,7 +287,7 @@ func (fm *avroFieldMapper) generateFieldValue(name, prefix string, avroType ast.
 		// check for a nil pointer
 		if _, ok := generatedField.Type.(*ast.StarExpr); ok {
 			return mappedFields{
-				fieldMapping:  fm.generateNullableFieldValue(name, prefix, mappedField.name, fmt.Sprintf("&%s", mappedField.fieldMapping)),
+				fieldMapping:  fm.generateNullableFieldValue(generatedField.Names[0].Name, prefix, mappedField.name, fmt.Sprintf("&%s", mappedField.fieldMapping)),
 				preProcessing: mappedField.preProcessing,
 			}, nil
 		}
@@ -349,7 +349,7 @@ func (fm *avroFieldMapper) generateFieldValue(name, prefix string, avroType ast.
 		// If not a built in type it could be a special Avro Union type
 		if tmpl, ok := fm.unionTemplates[typeName]; ok {
 			buf := &bytes.Buffer{}
-			format := map[string]string{"packageName": fm.packageName, "value": "z." + prefix + name}
+			format := map[string]string{"packageName": fm.packageName, "value": "z." + prefix + generatedField.Names[0].Name}
 			// special case for converting time fields
 			fieldType := generatedField.Type
 			pointer := false
@@ -358,7 +358,7 @@ func (fm *avroFieldMapper) generateFieldValue(name, prefix string, avroType ast.
 				fieldType = p.X
 			}
 			if selector, ok := fieldType.(*ast.SelectorExpr); ok && selector.Sel.Name == "Time" {
-				format = map[string]string{"packageName": fm.packageName, "value": fmt.Sprintf("generate.AvroTime(z.%s)", prefix+name)}
+				format = map[string]string{"packageName": fm.packageName, "value": fmt.Sprintf("generate.AvroTime(z.%s)", prefix+generatedField.Names[0].Name)}
 			}
 			if err := tmpl.Execute(buf, format); err != nil {
 				return mappedFields{}, fmt.Errorf("failed union template: %v", err)
@@ -419,7 +419,7 @@ func (fm *avroFieldMapper) generateStructValue(name, prefix, typeName string, ge
 	}
 
 	if aType, ok := generatedField.Type.(*ast.ArrayType); ok {
-		mappedStruct, fields, err := fm.generateChildStruct(aType.Elt, prefix+name, "", avroFields)
+		mappedStruct, fields, err := fm.generateChildStruct(aType.Elt, prefix+generatedField.Names[0].Name, "", avroFields)
 		if err != nil {
 			return mappedFields{}, err
 		}
@@ -457,7 +457,7 @@ func (fm *avroFieldMapper) generateStructValue(name, prefix, typeName string, ge
 		}, nil
 	}
 
-	mappedField, _, err := fm.generateChildStruct(generatedField.Type, prefix+name, prefix+name+".", avroFields)
+	mappedField, _, err := fm.generateChildStruct(generatedField.Type, prefix+generatedField.Names[0].Name, prefix+generatedField.Names[0].Name+".", avroFields)
 	if err != nil {
 		return mappedFields{}, err
 	}
-- 
2.43.0


From 995f644e87122e171421776bd0b4735e52d62450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:02 +0000
Subject: [PATCH 48/51] fix: no Avro code if different records share a name in
 it

---
 generate/avro.go | 29 +++++++++++++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/generate/avro.go b/generate/avro.go
index 02beaac..465e87f 100644
--- a/generate/avro.go
+++ b/generate/avro.go
@@ -19,6 +19,7 @@ import (
 	"github.com/actgardner/gogen-avro/v7/generator/flat"
 	avroparser "github.com/actgardner/gogen-avro/v7/parser"
 	"github.com/actgardner/gogen-avro/v7/resolver"
+	avroschema "github.com/actgardner/gogen-avro/v7/schema"
 	"golang.org/x/tools/go/ast/astutil"
 )
 
@@ -68,6 +69,12 @@ func buildAvroSerializationFunctions(schemaPath string, args BuildArgs) error {
 		if err := resolver.ResolveDefinition(def, namespace.Definitions); err != nil {
 			return fmt.Errorf("failed resolving Avro schema definition %q: %v", def.Name(), err)
 		}
+	}
+	if err := checkRecordNames(namespace); err != nil {
+		return fmt.Errorf("failed generating Avro serialization code: %v", err)
+	}
+
+	for _, def := range namespace.Roots {
 		if err := gen.Add(def); err != nil {
 			return fmt.Errorf("failed generating Avro serialization code: %v", err)
 		}
@@ -84,6 +91,28 @@ func buildAvroSerializationFunctions(schemaPath string, args BuildArgs) error {
 	return nil
 }
 
+// checkRecordNames returns an error if records which differ by more than their namespace get the same name in the
+// generated code. The code for all of the namespaces is in one package so it would describe only one of the records and
+// the data of the others would not be written according to the schema.
+func checkRecordNames(namespace *avroparser.Namespace) error {
+	fieldsByName := make(map[string]string)
+	for _, def := range namespace.Definitions {
+		record, ok := def.(*avroschema.RecordDefinition)
+		if !ok {
+			continue
+		}
+		var fields string
+		for _, f := range record.Fields() {
+			fields += fmt.Sprintf("%q %s,", f.Name(), f.Type().GoType())
+		}
+		if other, ok := fieldsByName[record.Name()]; ok && other != fields {
+			return fmt.Errorf("different records share the name %q", record.Name())
+		}
+		fieldsByName[record.Name()] = fields
+	}
+	return nil
+}
+
 // buildAvroSchemaFile will generate an Avro schema based on the go struct with the given name in the file at the
 // given path. I will write it to the same directory as the go file as `<name>.avsc` but with the name lowercased.
 // http://avro.apache.org/docs/current/spec.html
-- 
2.43.0


From 0d08a8271f9ebf41f01d0d71694621790cbf56d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:53 +0000
Subject: [PATCH 49/51] fix: embed structs which are renamed to a lower case
 name

---
 generate/generate.go | 3 +--
 generate/struct.go   | 3 +--
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/generate/generate.go b/generate/generate.go
index 79cd534..bc7d092 100644
--- a/generate/generate.go
+++ b/generate/generate.go
@@ -139,9 +139,8 @@ func BuildStructsWithArgs(args BuildArgs) error {
 		name := strings.Split(filepath.Base(allOfPath), ".")[0]
 		if newName, ok := args.StructNameMap[name]; ok {
 			name = newName
-		} else {
-			name = exportedName(name)
 		}
+		name = exportedName(name)
 		embeds = append(embeds, name)
 
 		path, err := buildStructFile(allOfPath, name, packageName, nil, args)
diff --git a/generate/struct.go b/generate/struct.go
index 9e214a0..def5be5 100644
--- a/generate/struct.go
+++ b/generate/struct.go
@@ -169,9 +169,8 @@ func newGeneratedGoFile(schema *jsonschema.Schema, name, packageName string, emb
 			ref := strings.Split(filepath.Base(all.FromRef), ".")[0]
 			if newName, ok := args.StructNameMap[ref]; ok {
 				ref = newName
-			} else {
-				ref = exportedName(ref)
 			}
+			ref = exportedName(ref)
 			if !slices.Contains(gof.rootStruct.embededStructs, ref) {
 				gof.rootStruct.embededStructs = append(gof.rootStruct.embededStructs, ref)
 			}
-- 
2.43.0


From 1c2e5a7e4d22eb47468d40e25ed941fe6b97d751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:33 +0000
Subject: [PATCH 50/51] fix: build XML arrays and objects from elements without
 children

An array or object whose xmlPath selects a single element without children was made from its text alone: the instructions
below, of attributes or the text, were ignored for arrays, giving strings where objects are wanted, and failed or were
skipped for objects. Items without instructions were dropped unless they were the only one.
---
 transform/instance.go  | 22 ++++++++++++++++++----
 transform/transform.go |  9 +++++++--
 2 files changed, 25 insertions(+), 6 deletions(-)

diff --git a/transform/instance.go b/transform/instance.go
index 00dc581..64795e6 100644
--- a/transform/instance.go
+++ b/transform/instance.go
@@ -114,7 +114,7 @@ func (at *arrayTransformer) baseValueJSON(in interface{}, path string, modifier
 func (at *arrayTransformer) baseValueXML(in interface{}, path string, modifier pathModifier) ([]interface{}, bool, error) {
 	// 1. Use a transform if it exists
 	if at.transforms != nil {
-		rawValue, err := at.transforms.transform(in, "array", modifier, at.format)
+		rawValue, err := at.transforms.transform(in, nodesType, modifier, at.format)
 		if err != nil {
 			return nil, false, err
 		}
@@ -247,8 +247,8 @@ func (at *arrayTransformer) arrayTransformXML(in interface{}, modifier pathModif
 	for i := range base {
 		currentPath := path + fmt.Sprintf("[%d]", i)
 		childValue := base[i]
-		if _, ok := childValue.(*xmlquery.Node); ok {
-			childValue, err = at.childTransformer.transform(childValue, pathReplace(oldPath, currentPath, modifier))
+		if node, ok := childValue.(*xmlquery.Node); ok {
+			childValue, err = at.itemXML(node, pathReplace(oldPath, currentPath, modifier))
 			if err != nil {
 				return nil, err
 			}
@@ -264,6 +264,16 @@ func (at *arrayTransformer) arrayTransformXML(in interface{}, modifier pathModif
 	return newArray, nil
 }
 
+// itemXML builds an item from its node, scalars without instructions are the text of the node.
+func (at *arrayTransformer) itemXML(node *xmlquery.Node, modifier pathModifier) (interface{}, error) {
+	if st, ok := at.childTransformer.(*scalarTransformer); ok && st.transforms == nil && st.jsonType != "object" {
+		if value, err := convert(node.InnerText(), st.jsonType); err == nil && value != nil {
+			return value, nil
+		}
+	}
+	return at.childTransformer.transform(node, modifier)
+}
+
 // transform routes to the correct array transform type.
 func (at *arrayTransformer) transform(in interface{}, modifier pathModifier) (interface{}, error) {
 	if at.format == jsonInput {
@@ -389,7 +399,7 @@ func (ot *objectTransformer) objectTransformXML(in interface{}, modifier pathMod
 	// For the object use a transform if it exists, if the transform does not find a node it will return nil unless a
 	// default value is specified in which case the default value will be returned
 	if ot.transforms != nil {
-		rawValue, err := ot.transforms.transform(in, "object", modifier, ot.format)
+		rawValue, err := ot.transforms.transform(in, nodesType, modifier, ot.format)
 		if err != nil {
 			return nil, err
 		}
@@ -415,6 +425,10 @@ func (ot *objectTransformer) objectTransformXML(in interface{}, modifier pathMod
 			if len(v) > 0 {
 				in = v[0]
 			}
+			// As above for an empty XML tag.
+			if len(v) == 1 && v[0].Type == xmlquery.ElementNode && v[0].FirstChild == nil && len(v[0].Attr) == 0 {
+				return nil, nil
+			}
 		default:
 			return nil, errors.New("non xml node returned from object transform")
 		}
diff --git a/transform/transform.go b/transform/transform.go
index 4300c13..d36dab8 100644
--- a/transform/transform.go
+++ b/transform/transform.go
@@ -102,6 +102,9 @@ func (ti *transformInstruction) UnmarshalJSON(data []byte) error {
 	return nil
 }
 
+// nodesType is the field type for the XML nodes objects and arrays are made from.
+const nodesType = "nodes"
+
 func (ti *transformInstruction) xmlTransform(in interface{}, fieldType string, modifier pathModifier) (interface{}, error) {
 	path := ti.xmlPath
 	if modifier != nil {
@@ -141,7 +144,9 @@ func (ti *transformInstruction) xmlTransform(in interface{}, fieldType string, m
 	numElementsWithoutChild := len(xmlquery.Find(node, path+"[not(*)]"))
 
 	// if only numElementsWithoutChild has results then the nodes are leaf nodes and can extract value
-	if numElementsWithChild == 0 && numElementsWithoutChild == 1 {
+	// unless something is to be selected from the node
+	wantNodes := fieldType == nodesType && len(ti.Operations) == 0
+	if numElementsWithChild == 0 && numElementsWithoutChild == 1 && !wantNodes {
 		text := xmlNode[0].InnerText()
 		value, err = convert(text, fieldType)
 		if err != nil && len(ti.Operations) > 0 {
@@ -150,7 +155,7 @@ func (ti *transformInstruction) xmlTransform(in interface{}, fieldType string, m
 		}
 	} else {
 		switch fieldType {
-		case "array", "object":
+		case "array", "object", nodesType:
 			value = xmlNode
 		case "string":
 			values := make([]string, len(xmlNode))
-- 
2.43.0


From ec3518100d022df67e8f2fa599b1a5c4f4ed03be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:56:16 +0000
Subject: [PATCH 51/51] fix: report fields of no or unknown type instead of
 generating wrong code

---
 generate/struct.go | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/generate/struct.go b/generate/struct.go
index def5be5..3700606 100644
--- a/generate/struct.go
+++ b/generate/struct.go
@@ -219,6 +219,9 @@ func (gof *goFile) structs() []*generatedStruct {
 // walkFunc is a jsonschema.WalkFunc which builds the fields for generatedStructFile within the gofile as the
 // JSON schema file is walked.
 func (gof *goFile) walkFunc(path string, i jsonschema.Instance) error {
+	if err := checkType(i.Type); err != nil {
+		return fmt.Errorf("failed field %q: %w", path, err)
+	}
 	gen := gof.rootStruct
 
 	if !gof.args.NoNestedStructs {
@@ -436,6 +439,23 @@ func singleType(types []string) (string, error) {
 	return jsonType, nil
 }
 
+// checkType returns an error for types no Go field can be generated for.
+func checkType(types []string) error {
+	// Fields of this type are ignored, see addField.
+	if slices.Contains(types, "graphql-hydration") {
+		return nil
+	}
+	jsonType, err := singleType(types)
+	if err != nil {
+		return err
+	}
+	switch jsonType {
+	case "array", "boolean", "integer", "number", "object", "string":
+		return nil
+	}
+	return fmt.Errorf("cannot generate structures for type %q", jsonType)
+}
+
 // goType maps a jsonType to a string representation of the go type.
 // If Array is true it makes the type into an array.
 // If the JSON Schema had a type of "string" and a format of "date-time" it is expected the input jsonType will be
-- 
2.43.0

