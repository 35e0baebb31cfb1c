From d483f8bda609c7fe3a17dc190927854cc2cb3a81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:44:40 +0000
Subject: [PATCH 01/29] fix: let NEX hold for labels the message does not have

A condition asking that a sender or receiver label does not exist was
false when the label was missing and true when it was present but empty.
It now holds exactly when the message lacks the label.
---
 MAPL_engine/check.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/MAPL_engine/check.go b/MAPL_engine/check.go
index e0f5817..df6e7d6 100755
--- a/MAPL_engine/check.go
+++ b/MAPL_engine/check.go
@@ -448,6 +448,10 @@ func testSenderLabelCondition(c *Condition, message *MessageAttributes) bool {
 		log.Println("senderLabel without the correct format")
 		return false
 	}
+	if c.Method == "NEX" || c.Method == "nex" { // just test the non-existence of the key
+		_, ok := message.SourceLabels[c.AttributeSenderLabelKey]
+		return !ok
+	}
 	if valueToCompareString1, ok := message.SourceLabels[c.AttributeSenderLabelKey]; ok { // enter the block only if the key exists
 		if c.ValueIsReceiverLabel {
 			if valueToCompareString2, ok2 := message.DestinationLabels[c.ValueReceiverLabelKey]; ok2 {
@@ -478,6 +482,10 @@ func testReceiverLabelCondition(c *Condition, message *MessageAttributes) bool {
 		log.Println("receiverLabel without the correct format")
 		return false
 	}
+	if c.Method == "NEX" || c.Method == "nex" { // just test the non-existence of the key
+		_, ok := message.DestinationLabels[c.AttributeReceiverLabelKey]
+		return !ok
+	}
 	if valueToCompareString1, ok := message.DestinationLabels[c.AttributeReceiverLabelKey]; ok { // enter the block only if the key exists
 		if c.Method == "RE" || c.Method == "re" || c.Method == "NRE" || c.Method == "nre" {
 			result = compareRegexFunc(valueToCompareString1, c.Method, c.ValueRegex)
-- 
2.43.0


From 9f133f3a0352d64c591f012ccdbaeeac89c7297d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:16:51 +0000
Subject: [PATCH 02/29] fix: do not append to the message's own bytes when
 joining selections

ANY/ALL with several parent paths joined the selected parts by appending
to the slice of the first one. That slice can be a window into the raw
message, so the append overwrote the bytes after it.
---
 MAPL_engine/check.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MAPL_engine/check.go b/MAPL_engine/check.go
index df6e7d6..b195617 100755
--- a/MAPL_engine/check.go
+++ b/MAPL_engine/check.go
@@ -994,7 +994,7 @@ func getArrayOfJsons(a AnyAllNode, message *MessageAttributes) ([][]byte, error)
 		}
 		if err == nil {
 			if len(arrayData) == 0 {
-				arrayData = arrayDataTemp
+				arrayData = append([]byte{}, arrayDataTemp...) // a copy: the result may be part of the message itself
 			} else {
 				if len(arrayDataTemp) != 0 {
 					arrayData = append(arrayData, ',')
-- 
2.43.0


From 968d5ca88cee2cf8022d687e3a731eb526850f98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:31:01 +0000
Subject: [PATCH 03/29] fix: return no data from an AND that does not hold

---
 MAPL_engine/conditions_tree.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MAPL_engine/conditions_tree.go b/MAPL_engine/conditions_tree.go
index 9533e86..89c8394 100755
--- a/MAPL_engine/conditions_tree.go
+++ b/MAPL_engine/conditions_tree.go
@@ -130,7 +130,7 @@ func (a *And) Eval(message *MessageAttributes) (bool, []map[string]interface{})
 			extraData = extraDataTemp
 		}
 		if flag == false {
-			return false, extraData // no need to check the rest
+			return false, []map[string]interface{}{} // no need to check the rest
 		}
 	}
 	return true, extraData
-- 
2.43.0


From 34a39536b0632c80a0bba00e1b8dfd1a59da7efe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:31:01 +0000
Subject: [PATCH 04/29] fix: keep the relative form of a condition's return
 paths

---
 MAPL_engine/definitions_rule.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MAPL_engine/definitions_rule.go b/MAPL_engine/definitions_rule.go
index b433801..66a8271 100644
--- a/MAPL_engine/definitions_rule.go
+++ b/MAPL_engine/definitions_rule.go
@@ -148,7 +148,7 @@ func ConditionFromConditionNode(c ConditionNode) Condition {
 			relativeFlag = true
 		}
 		c_out.ReturnValueJsonpath[k] = strings.Replace(v, "jsonpath:$RELATIVE", "$", 1)
-		c_out.ReturnValueJsonpath[k] = strings.Replace(v, "jsonpath:$", "$", 1)
+		c_out.ReturnValueJsonpath[k] = strings.Replace(c_out.ReturnValueJsonpath[k], "jsonpath:$", "$", 1)
 
 		tempAtt := c_out.ReturnValueJsonpath[k]
 		p, err := jsonpath.Prepare(tempAtt)
-- 
2.43.0


From 0f9a162a71a4fc981ab06e590e28dba589ba695f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:31:01 +0000
Subject: [PATCH 05/29] fix: let read and write cover the CONSUME and PRODUCE
 operations

---
 MAPL_engine/string_utils.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/MAPL_engine/string_utils.go b/MAPL_engine/string_utils.go
index 2387fce..c57ff26 100644
--- a/MAPL_engine/string_utils.go
+++ b/MAPL_engine/string_utils.go
@@ -118,9 +118,9 @@ func ConvertOperationStringToRegex(str_in string) string {
 	case "*":
 		str_out = ".*"
 	case "write", "WRITE":
-		str_out = "(^POST$|^PUT$|^DELETE$)" // we cannot translate to ".*" because then rules of type "write:block" would apply to all messages.
+		str_out = "(^POST$|^PUT$|^DELETE$|^PRODUCE$)" // we cannot translate to ".*" because then rules of type "write:block" would apply to all messages.
 	case "read", "READ":
-		str_out = "(^GET$|^HEAD$|^OPTIONS$|^TRACE$|^read$|^READ$)"
+		str_out = "(^GET$|^HEAD$|^OPTIONS$|^TRACE$|^CONSUME$|^read$|^READ$)"
 	default:
 		str_out = ConvertStringToRegex(str_in, "WithWildcards") // we allow automatic use of wildcards in Operation attribute
 	}
-- 
2.43.0


From 7974a2df2dcc431e5138796e8678a5b0b532c05b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:31:01 +0000
Subject: [PATCH 06/29] fix: do not crash on encryptionVersion when the message
 has none

---
 MAPL_engine/check.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/MAPL_engine/check.go b/MAPL_engine/check.go
index b195617..fd2bc81 100755
--- a/MAPL_engine/check.go
+++ b/MAPL_engine/check.go
@@ -303,6 +303,9 @@ func testOneCondition(c *Condition, message *MessageAttributes) (bool, []map[str
 		}
 
 	case ("encryptionVersion"):
+		if message.EncryptionVersion == nil {
+			return false, []map[string]interface{}{} // By definition
+		}
 		valueToCompareFloat = *message.EncryptionVersion
 		result = compareFloatFunc(valueToCompareFloat, c.Method, c.ValueFloat)
 
-- 
2.43.0


From 3b4bbfb0b7cc1c39f1d4601e8972893a24fe003e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:31:01 +0000
Subject: [PATCH 07/29] fix: do not crash when a number is compared with a
 value that is not one

---
 MAPL_engine/check.go | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/MAPL_engine/check.go b/MAPL_engine/check.go
index fd2bc81..ee370bc 100755
--- a/MAPL_engine/check.go
+++ b/MAPL_engine/check.go
@@ -800,6 +800,15 @@ func getAttribute(sender_receiver, attribute string, message MessageAttributes)
 
 // compareIntFunc compares one int value according the method string.
 func compareIntFunc(value1 int64, method string, value2 *int64) bool { //value2 is the reference value from the rule
+
+	if value2 == nil { // the value in the rule is not a number
+		switch method {
+		case "NEQ", "neq", "ne", "NE":
+			return true
+		}
+		return false
+	}
+
 	switch method {
 	case "EQ", "eq":
 		return (value1 == *value2)
@@ -819,6 +828,15 @@ func compareIntFunc(value1 int64, method string, value2 *int64) bool { //value2
 
 // compareFloatFunc compares one float value according the method string.
 func compareFloatFunc(value1 float64, method string, value2 *float64) bool { //value2 is the reference value from the rule
+
+	if value2 == nil { // the value in the rule is not a number
+		switch method {
+		case "NEQ", "neq", "ne", "NE":
+			return true
+		}
+		return false
+	}
+
 	switch method {
 	case "EQ", "eq":
 		return (value1 == *value2)
-- 
2.43.0


From 252f207b232654174c058515b94a06115d410e68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:31:01 +0000
Subject: [PATCH 08/29] fix: do not use a rule that could not be prepared

---
 MAPL_engine/check.go             | 12 ++++++++++--
 MAPL_engine/rule_mongo_plugin.go |  5 ++++-
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/MAPL_engine/check.go b/MAPL_engine/check.go
index ee370bc..ec9c6a5 100755
--- a/MAPL_engine/check.go
+++ b/MAPL_engine/check.go
@@ -101,7 +101,11 @@ func Check(message *MessageAttributes, rules *Rules) (decision int, descisionStr
 func CheckOneRule(message *MessageAttributes, ruleOriginal *Rule) (int, []map[string]interface{}) {
 
 	if !ruleOriginal.ruleAlreadyPrepared {
-		ruleOriginal.SetPredefinedStringsAndLists(GlobalPredefinedStringsAndLists) // use the global if not set already
+		err := ruleOriginal.SetPredefinedStringsAndLists(GlobalPredefinedStringsAndLists) // use the global if not set already
+		if err != nil {
+			log.Printf("can't prepare rule: %v", err)
+			return DEFAULT, []map[string]interface{}{}
+		}
 	}
 	rule := ruleOriginal.preparedRule // the prepared rule is the one used below!
 	// ----------------------
@@ -248,7 +252,11 @@ func TestReceiver(rule *Rule, message *MessageAttributes) bool {
 func TestConditions(rule *Rule, message *MessageAttributes) (bool, []map[string]interface{}) { // to-do return error
 
 	if !rule.ruleAlreadyPrepared {
-		rule.SetPredefinedStringsAndLists(GlobalPredefinedStringsAndLists)
+		err := rule.SetPredefinedStringsAndLists(GlobalPredefinedStringsAndLists)
+		if err != nil {
+			log.Printf("can't prepare rule: %v", err)
+			return false, []map[string]interface{}{}
+		}
 	}
 
 	if rule.preparedRule.Conditions.ConditionsTree != nil {
diff --git a/MAPL_engine/rule_mongo_plugin.go b/MAPL_engine/rule_mongo_plugin.go
index a11265d..43abe2e 100644
--- a/MAPL_engine/rule_mongo_plugin.go
+++ b/MAPL_engine/rule_mongo_plugin.go
@@ -17,7 +17,10 @@ type MaplToMongoResult struct {
 func (rule *Rule) ToMongoQuery(parentField string) (MaplToMongoResult, error) {
 
 	if !rule.ruleAlreadyPrepared {
-		rule.SetPredefinedStringsAndLists(GlobalPredefinedStringsAndLists) // use the global if not set already
+		err := rule.SetPredefinedStringsAndLists(GlobalPredefinedStringsAndLists) // use the global if not set already
+		if err != nil {
+			return MaplToMongoResult{"", nil}, err
+		}
 	}
 
 	if rule.preparedRule.Conditions.ConditionsTree == nil {
-- 
2.43.0


From b588aab078d91842b3edf0b1d4208a2b48a968ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:31:01 +0000
Subject: [PATCH 09/29] fix: rebuild the name patterns after the predefined
 names are replaced

---
 MAPL_engine/rules_load.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/MAPL_engine/rules_load.go b/MAPL_engine/rules_load.go
index c92017f..bb69d3d 100644
--- a/MAPL_engine/rules_load.go
+++ b/MAPL_engine/rules_load.go
@@ -71,6 +71,7 @@ func (rule *Rule) SetPredefinedStringsAndLists(stringsAndlists PredefinedStrings
 		return err
 	}
 
+	ruleCopy.AlreadyConvertedFieldsToRegexFlag = false // the names may be replaced so the regexes have to be built again
 	rule.predefinedStringsAndLists = stringsAndlists
 
 	err = PrepareOneRuleWithPredefinedStrings(&ruleCopy, rule.predefinedStringsAndLists)
-- 
2.43.0


From 1d9d02355b56e71c754f2de2b08530bf51dfb3a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:31:01 +0000
Subject: [PATCH 10/29] fix: take KEY and VALUE only from a single key-value
 pair

---
 MAPL_engine/check.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/MAPL_engine/check.go b/MAPL_engine/check.go
index ec9c6a5..4610c07 100755
--- a/MAPL_engine/check.go
+++ b/MAPL_engine/check.go
@@ -718,18 +718,18 @@ func testJsonPathConditionOnInterface(c *Condition, message *MessageAttributes)
 func getKeyValueFromInterface(c *Condition, message *MessageAttributes) (interface{}, error) {
 	var valueToCompareInterface interface{}
 	var err error
+	xx := (*message).RequestRawInterfaceRelative
+	yy, ok := (*xx).(map[string]interface{})
+	if !ok || len(yy) != 1 { // as in getKeyValue
+		return nil, nil
+	}
 	if c.AttributeJsonpathQuery == "$KEY" {
-		xx := (*message).RequestRawInterfaceRelative
-		yy := (*xx).(map[string]interface{})
 		for k := range yy {
 			valueToCompareInterface = k
 			err = nil
 			break
 		}
 	} else {
-
-		xx := (*message).RequestRawInterfaceRelative
-		yy := (*xx).(map[string]interface{})
 		for _, v := range yy {
 			if c.AttributeJsonpathQuery == "$VALUE" {
 				valueToCompareInterface = v
-- 
2.43.0


From 6b736cf31b6fa91b22763fef61b7689910caacb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:31:01 +0000
Subject: [PATCH 11/29] fix: select ANY/ALL elements in key order and without
 crashing on other data

---
 MAPL_engine/check.go            | 31 +++++++++++++++++++++++--------
 MAPL_engine/definitions_rule.go |  7 +++++++
 2 files changed, 30 insertions(+), 8 deletions(-)

diff --git a/MAPL_engine/check.go b/MAPL_engine/check.go
index 4610c07..60dde2a 100755
--- a/MAPL_engine/check.go
+++ b/MAPL_engine/check.go
@@ -934,13 +934,19 @@ func getArrayOfInterfaces(a AnyAllNode, message *MessageAttributes) ([]interface
 	parentJsonpath := a.GetParentJsonpathAttribute()
 	if strings.HasPrefix(parentJsonpath, "$RELATIVE.") || parentJsonpath == "$RELATIVE*" || strings.HasPrefix(parentJsonpath, "$KEY.") || strings.HasPrefix(parentJsonpath, "$VALUE.") { // to-do: create a flag once when parsing!
 
+		if message.RequestRawInterfaceRelative == nil {
+			return []interface{}{}, errors.New("no relative data in the message")
+		}
 		if parentJsonpath == "$RELATIVE*" {
 			var temp []interface{}
 			xx := (*message).RequestRawInterfaceRelative
-			yy := (*xx).(map[string]interface{})
-			for k, v := range yy {
+			yy, ok := (*xx).(map[string]interface{})
+			if !ok {
+				return []interface{}{}, nil
+			}
+			for _, k := range getSortedKeys(yy) {
 				zz := make(map[string]interface{}, 1)
-				zz[k] = v
+				zz[k] = yy[k]
 				temp = append(temp, zz)
 			}
 			return temp, nil
@@ -977,15 +983,18 @@ func ArrangeArrayInterface(arrayDataInterface interface{}) []interface{} {
 	case map[string]interface{}:
 		tempArray := arrayDataInterface.(map[string]interface{})
 		tempArrayOut := []interface{}{}
-		for k, v := range tempArray {
-			tempArrayOut = append(tempArrayOut, map[string]interface{}{k: v})
+		for _, k := range getSortedKeys(tempArray) {
+			tempArrayOut = append(tempArrayOut, map[string]interface{}{k: tempArray[k]})
 		}
 		return tempArrayOut
 	default:
 		if arrayDataInterface == nil {
 			return []interface{}{}
 		}
-		tempArray := arrayDataInterface.([]interface{})
+		tempArray, ok := arrayDataInterface.([]interface{})
+		if !ok { // a single value has no elements
+			return []interface{}{}
+		}
 		tempArrayOut := []interface{}{}
 		for _, x := range tempArray {
 			switch x.(type) {
@@ -1017,8 +1026,14 @@ func getArrayOfJsons(a AnyAllNode, message *MessageAttributes) ([][]byte, error)
 			if parentJsonpath == "$RELATIVE*" {
 				parentJsonpath = "$*"
 			}
+			if message.RequestJsonRawRelative == nil {
+				return [][]byte{}, errors.New("no relative data in the message")
+			}
 			arrayDataTemp, err = jsonslice.Get(*message.RequestJsonRawRelative, parentJsonpath)
 		} else {
+			if message.RequestJsonRaw == nil {
+				return [][]byte{}, errors.New("no data in the message")
+			}
 			arrayDataTemp, err = jsonslice.Get(*message.RequestJsonRaw, parentJsonpath)
 		}
 		if err == nil {
@@ -1116,9 +1131,9 @@ func getArrayOfJsonsFromMapStringInterface(arrayData []byte) ([][]byte, error) {
 	if err != nil {
 		return [][]byte{}, err
 	}
-	for i_x, x := range arrayInterface {
+	for _, i_x := range getSortedKeys(arrayInterface) {
 		z := map[string]interface{}{}
-		z[i_x] = x
+		z[i_x] = arrayInterface[i_x]
 		y, err := json.Marshal(z)
 		if err != nil {
 			return [][]byte{}, err
diff --git a/MAPL_engine/definitions_rule.go b/MAPL_engine/definitions_rule.go
index 66a8271..29fb5f7 100644
--- a/MAPL_engine/definitions_rule.go
+++ b/MAPL_engine/definitions_rule.go
@@ -8,6 +8,7 @@ import (
 	dc "gopkg.in/getlantern/deepcopy.v1"
 	"net"
 	"regexp"
+	"sort"
 	"strings"
 )
 
@@ -205,6 +206,12 @@ func getKeys(v map[string]interface{}) []string {
 	return keys
 }
 
+func getSortedKeys(v map[string]interface{}) []string {
+	keys := getKeys(v)
+	sort.Strings(keys)
+	return keys
+}
+
 func isConditionNode(v map[string]interface{}) bool {
 	keys := getKeys(v)
 	flagAtt := slice.ContainsString(keys, "Attribute") || slice.ContainsString(keys, "attribute")
-- 
2.43.0


From 76e6450637fd293a1deef6d8ab416fdcfb09751b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:31:01 +0000
Subject: [PATCH 12/29] fix: do not crash when there is no data to take return
 values from

---
 MAPL_engine/check.go | 32 +++++++++++++++-----------------
 1 file changed, 15 insertions(+), 17 deletions(-)

diff --git a/MAPL_engine/check.go b/MAPL_engine/check.go
index 60dde2a..4a38caa 100755
--- a/MAPL_engine/check.go
+++ b/MAPL_engine/check.go
@@ -367,21 +367,18 @@ func getExtraDataFromInterface(preparedReturnValueJsonpathQueryMap map[string]js
 	extraDataTemp := make(map[string]interface{})
 
 	for queryName, preparedQuery := range preparedReturnValueJsonpathQueryMap {
+		rawInterface := message.RequestRawInterface
+		if preparedReturnValueJsonpathQueryRelativeFlag[queryName] {
+			rawInterface = message.RequestRawInterfaceRelative
+		}
+		if rawInterface == nil { // there is nothing to take the value from
+			continue
+		}
 		if returnValueJsonpathMap[queryName] == "$*" {
-			if preparedReturnValueJsonpathQueryRelativeFlag[queryName] {
-				extraDataTemp[queryName] = *message.RequestRawInterfaceRelative
-			} else {
-				extraDataTemp[queryName] = *message.RequestRawInterface
-			}
+			extraDataTemp[queryName] = *rawInterface
 		} else {
 			if preparedQuery != nil {
-				var err error
-				var extraDataTempTemp interface{}
-				if preparedReturnValueJsonpathQueryRelativeFlag[queryName] {
-					extraDataTempTemp, err = queryInterface(preparedQuery, *message.RequestRawInterfaceRelative)
-				} else {
-					extraDataTempTemp, err = queryInterface(preparedQuery, *message.RequestRawInterface)
-				}
+				extraDataTempTemp, err := queryInterface(preparedQuery, *rawInterface)
 				if err == nil {
 					extraDataTemp[queryName] = extraDataTempTemp
 				}
@@ -399,13 +396,14 @@ func getExtraDataFromByteArray(returnValueJsonpathMap map[string]string, returnV
 	extraDataTemp := make(map[string]interface{})
 
 	for queryName, queryString := range returnValueJsonpathMap {
-		var extraDataBytes []byte
-
+		jsonRaw := message.RequestJsonRaw
 		if returnValueJsonpathQueryRelativeFlag[queryName] {
-			extraDataBytes, _ = jsonslice.Get(*message.RequestJsonRawRelative, queryString)
-		} else {
-			extraDataBytes, _ = jsonslice.Get(*message.RequestJsonRaw, queryString)
+			jsonRaw = message.RequestJsonRawRelative
+		}
+		if jsonRaw == nil { // there is nothing to take the value from
+			continue
 		}
+		extraDataBytes, _ := jsonslice.Get(*jsonRaw, queryString)
 
 		var tempInterface interface{}
 		err := json.Unmarshal(extraDataBytes, &tempInterface)
-- 
2.43.0


From d85f84c80b134a02655321e07d363c6456ca7c4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:32:17 +0000
Subject: [PATCH 13/29] fix: reject conditions with other values where text is
 required

---
 MAPL_engine/conditions_tree.go  | 44 ++++++++++++++++++++++++++++++---
 MAPL_engine/definitions_rule.go |  8 +++---
 2 files changed, 45 insertions(+), 7 deletions(-)

diff --git a/MAPL_engine/conditions_tree.go b/MAPL_engine/conditions_tree.go
index 89c8394..070dc35 100755
--- a/MAPL_engine/conditions_tree.go
+++ b/MAPL_engine/conditions_tree.go
@@ -786,6 +786,10 @@ func handleMapStringInterface(v2 map[string]interface{}, parentString string) (N
 
 func getNodeCondition(v map[string]interface{}, parentString string) (Node, error) {
 
+	err := isValidConditionNode(v)
+	if err != nil {
+		return nil, err
+	}
 	cond := ReadCondition(v)
 
 	c, err := prepareOneConditionNode(cond) // add regexes etc... and validate the condition
@@ -805,6 +809,34 @@ func getNodeCondition(v map[string]interface{}, parentString string) (Node, erro
 	}
 }
 
+func isValidConditionNode(v map[string]interface{}) error {
+	for key, val := range v {
+		switch key {
+		case "attribute", "Attribute", "method", "Method":
+			if _, ok := val.(string); !ok {
+				return fmt.Errorf("invalid %v in condition [%v is not a string]", key, val)
+			}
+		case "returnValueJsonpath", "ReturnValueJsonpath":
+			paths := map[string]interface{}{}
+			switch val2 := val.(type) {
+			case map[string]interface{}:
+				paths = val2
+			case map[interface{}]interface{}:
+				paths = mapInterfaceToMapString(val2)
+			case nil:
+			default:
+				return fmt.Errorf("invalid returnValueJsonpath [%v is not map[string]interface]", val)
+			}
+			for _, path := range paths {
+				if _, ok := path.(string); !ok {
+					return fmt.Errorf("invalid returnValueJsonpath [%v is not a string]", path)
+				}
+			}
+		}
+	}
+	return nil
+}
+
 func isValidAnyAllNode(v map[string]interface{}) error {
 	keys := getKeys(v)
 	if len(keys) != 2 && len(keys) != 3 {
@@ -833,7 +865,10 @@ func getAnyAllNode(v2 map[string]interface{}, parentString string) (Node, error)
 	for key, val := range v2 {
 		switch key {
 		case "parentJsonpathAttribute":
-			parentJsonpathAttribute := val.(string)
+			parentJsonpathAttribute, ok := val.(string)
+			if !ok {
+				return nil, fmt.Errorf("invalid parentJsonpathAttribute [%v is not a string]", val)
+			}
 			if isValidParentJsonpathAttribute(parentJsonpathAttribute) {
 				anyAllNode.SetParentJsonpathAttribute(parentJsonpathAttribute)
 			} else {
@@ -852,7 +887,10 @@ func getAnyAllNode(v2 map[string]interface{}, parentString string) (Node, error)
 
 			returnValueJsonpathMap := map[string]string{}
 			for k, v := range returnValueJsonpath {
-				vString := v.(string)
+				vString, ok := v.(string)
+				if !ok {
+					return nil, fmt.Errorf("invalid returnValueJsonpath [%v is not a string]", v)
+				}
 				if strings.HasPrefix(vString, "jsonpath:$RELATIVE") {
 					returnValueJsonpathMap[k] = vString
 				} else {
@@ -917,7 +955,7 @@ func isValidParentJsonpathAttribute(parentJsonpathAttribute string) bool {
 func mapInterfaceToMapString(node map[interface{}]interface{}) map[string]interface{} {
 	node_out := make(map[string]interface{})
 	for k, val := range node {
-		node_out[k.(string)] = val
+		node_out[fmt.Sprintf("%v", k)] = val
 	}
 	return node_out
 }
diff --git a/MAPL_engine/definitions_rule.go b/MAPL_engine/definitions_rule.go
index 29fb5f7..ca747d7 100644
--- a/MAPL_engine/definitions_rule.go
+++ b/MAPL_engine/definitions_rule.go
@@ -171,10 +171,10 @@ func ReadCondition(v map[string]interface{}) ConditionNode {
 	for k, val := range v {
 		switch k {
 		case "attribute", "Attribute":
-			c.Attribute = val.(string)
+			c.Attribute, _ = val.(string)
 
 		case "method", "Method":
-			c.Method = val.(string)
+			c.Method, _ = val.(string)
 
 		case "value", "Value":
 			c.Value = fmt.Sprintf("%v", val) // to avoid interface interpreted as int which causes panic
@@ -185,12 +185,12 @@ func ReadCondition(v map[string]interface{}) ConditionNode {
 			case map[string]interface{}:
 				val2 := val.(map[string]interface{})
 				for kk, vv := range val2 {
-					c.ReturnValueJsonpath[kk] = vv.(string)
+					c.ReturnValueJsonpath[kk], _ = vv.(string)
 				}
 			case map[interface{}]interface{}:
 				val2 := val.(map[interface{}]interface{})
 				for kk, vv := range val2 {
-					c.ReturnValueJsonpath[kk.(string)] = vv.(string)
+					c.ReturnValueJsonpath[fmt.Sprintf("%v", kk)], _ = vv.(string)
 				}
 			}
 		}
-- 
2.43.0


From 11fb721ab26ba27baa9062b86ba76f83cac6b453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:32:17 +0000
Subject: [PATCH 14/29] fix: reject NOT, ANY and ALL without exactly one inner
 condition

---
 MAPL_engine/conditions_tree.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/MAPL_engine/conditions_tree.go b/MAPL_engine/conditions_tree.go
index 070dc35..2360165 100755
--- a/MAPL_engine/conditions_tree.go
+++ b/MAPL_engine/conditions_tree.go
@@ -845,6 +845,9 @@ func isValidAnyAllNode(v map[string]interface{}) error {
 	if !slice.ContainsString(keys, "parentJsonpathAttribute") {
 		return fmt.Errorf("ANY/ALL node without 'parentJsonpathAttribute' key")
 	}
+	if slice.ContainsString(keys, "returnValueJsonpath") != (len(keys) == 3) {
+		return fmt.Errorf("ANY/ALL node without exactly one condition")
+	}
 	return nil
 }
 
@@ -986,6 +989,9 @@ func prepareOneConditionNode(cond ConditionNode) (Node, error) {
 
 func handleInterfaceArray(node interface{}, parentString string) (Node, error) {
 	v2 := node.([]interface{})
+	if parentString == "NOT" && len(v2) != 1 {
+		return nil, fmt.Errorf("NOT node without exactly one condition")
+	}
 	nodes, err := getNodeByParentString(parentString)
 
 	if err != nil {
-- 
2.43.0


From 9e417c1161ef38982a563077387b48d7d8dfe9eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:32:17 +0000
Subject: [PATCH 15/29] fix: evaluate the lower case forms of IN and NIN

---
 MAPL_engine/rules_load.go          | 6 +++---
 MAPL_engine/validate_conditions.go | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/MAPL_engine/rules_load.go b/MAPL_engine/rules_load.go
index bb69d3d..a55a29c 100644
--- a/MAPL_engine/rules_load.go
+++ b/MAPL_engine/rules_load.go
@@ -331,15 +331,15 @@ func ConvertConditionStringToIntFloatRegex(condition *Condition) error { // TO-D
 	condition.OriginalMethod = condition.Method
 	condition.OriginalValue = condition.Value
 
-	if condition.Method == "IN" || condition.Method == "NIN" || condition.Method == "IS" {
+	if method := strings.ToUpper(condition.Method); method == "IN" || method == "NIN" || method == "IS" {
 		tempString := strings.Replace(condition.Value, "[", "", -1)
 		tempString = strings.Replace(tempString, "]", "", -1)
 		tempString = strings.Replace(tempString, ",", "$|^", -1)
 		tempString = "^" + tempString + "$"
-		if condition.Method == "IN" || condition.Method == "IS" {
+		if method == "IN" || method == "IS" {
 			condition.Method = "RE"
 		}
-		if condition.Method == "NIN" {
+		if method == "NIN" {
 			condition.Method = "NRE"
 		}
 		condition.Value = tempString
diff --git a/MAPL_engine/validate_conditions.go b/MAPL_engine/validate_conditions.go
index 6a857e5..6c675c9 100755
--- a/MAPL_engine/validate_conditions.go
+++ b/MAPL_engine/validate_conditions.go
@@ -129,7 +129,7 @@ func validateMethod(condition *Condition) (bool, error) {
 	if !slice.ContainsString(supportedMethodsSlice, condition.Method) {
 		return false, fmt.Errorf("invalid method in condition [%v]", condition.Method)
 	}
-	if condition.Method == "IN" || condition.Method == "NIN" {
+	if method := strings.ToUpper(condition.Method); method == "IN" || method == "NIN" {
 		L := len(condition.Value)
 		if L == 0 {
 			return false, fmt.Errorf("test membership in empty array")
-- 
2.43.0


From 5af4c499e34c7727c3c578aa0004d200c0cc9f63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:32:17 +0000
Subject: [PATCH 16/29] fix: join predefined lists as a pattern for lower case
 pattern methods too

---
 MAPL_engine/rules_load.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MAPL_engine/rules_load.go b/MAPL_engine/rules_load.go
index a55a29c..45002f9 100644
--- a/MAPL_engine/rules_load.go
+++ b/MAPL_engine/rules_load.go
@@ -269,7 +269,7 @@ func ReplaceStringsAndListsInCondition(c *Condition, stringsAndlists PredefinedS
 	newList, ok, isReplaceable := isReplaceableList(c.Value, stringsAndlists)
 	if ok {
 		newValue := ""
-		if c.Method == "RE" || c.Method == "NRE" {
+		if slice.ContainsString(regexSlice, c.Method) {
 			newValue = convertListToRegexString(newList)
 			_, err := regexp.Compile(newValue)
 			if err != nil {
-- 
2.43.0


From 0703afd09fc9645756968824634bb89a0688f445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:32:17 +0000
Subject: [PATCH 17/29] fix: let NE compare text found by a jsonpath as NEQ
 does

---
 MAPL_engine/check.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/MAPL_engine/check.go b/MAPL_engine/check.go
index 4a38caa..e2c7b07 100755
--- a/MAPL_engine/check.go
+++ b/MAPL_engine/check.go
@@ -584,7 +584,7 @@ func testJsonPathCondition(c *Condition, message *MessageAttributes) bool {
 		valueToCompareFloat = valueToCompareFloat * factor
 
 		if err != nil {
-			if method == "EQ" || method == "NEQ" {
+			if method == "EQ" || method == "NEQ" || method == "NE" {
 				result = compareStringFunc(valueToCompareString, c.Method, c.Value) // compare strings (strightforward comparison. use of wildcards is only via RE)
 			} else {
 				log.Println("can't parse jsonpath value [float]")
@@ -678,7 +678,7 @@ func testJsonPathConditionOnInterface(c *Condition, message *MessageAttributes)
 			valueToCompareFloat, err = strconv.ParseFloat(valueStringWithoutUnits, 64)
 			if err != nil {
 				log.Println("can't parse jsonpath value [float]")
-				if method == "NEQ" {
+				if method == "NEQ" || method == "NE" {
 					return true
 				}
 				return false
@@ -688,7 +688,7 @@ func testJsonPathConditionOnInterface(c *Condition, message *MessageAttributes)
 		}
 
 		if !flagCompareToNumber {
-			if method == "EQ" || method == "NEQ" {
+			if method == "EQ" || method == "NEQ" || method == "NE" {
 				//return compareStringWithWildcardsFunc(valueToCompareString, c.Method, c.ValueStringRegex) // compare strings with wildcards
 				return compareStringFunc(valueToCompareString, c.Method, c.Value) // compare strings (strightforward comparison. use of wildcards is only via RE)
 			} else {
-- 
2.43.0


From d2731a5ab27f4f50167cdb4ba4cbf9e809ab82ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:32:17 +0000
Subject: [PATCH 18/29] fix: escape the text of conditions when writing JSON

---
 MAPL_engine/conditions_tree.go  |  6 ++++--
 MAPL_engine/definitions_rule.go | 11 +++++------
 2 files changed, 9 insertions(+), 8 deletions(-)

diff --git a/MAPL_engine/conditions_tree.go b/MAPL_engine/conditions_tree.go
index 2360165..ab7e631 100755
--- a/MAPL_engine/conditions_tree.go
+++ b/MAPL_engine/conditions_tree.go
@@ -268,7 +268,8 @@ func (a *Any) MarshalJSON() ([]byte, error) {
 		returnValueJsonpath = a.ReturnValueJsonpathOriginal
 	}
 
-	str := fmt.Sprintf(`{"ANY":{"parentJsonpathAttribute":"%v",`, parentJsonpathAttributeString)
+	parentJsonpathAttributeJson, _ := json.Marshal(parentJsonpathAttributeString)
+	str := fmt.Sprintf(`{"ANY":{"parentJsonpathAttribute":%v,`, string(parentJsonpathAttributeJson))
 	if len(returnValueJsonpath) > 0 {
 		returnValueJsonpathJson, _ := json.Marshal(returnValueJsonpath)
 		str = fmt.Sprintf(`%v"returnValueJsonpath": %v,`, str, string(returnValueJsonpathJson))
@@ -479,7 +480,8 @@ func (a *All) MarshalJSON() ([]byte, error) {
 		returnValueJsonpath = a.ReturnValueJsonpathOriginal
 	}
 
-	str := fmt.Sprintf(`{"ALL":{"parentJsonpathAttribute":"%v",`, parentJsonpathAttributeString)
+	parentJsonpathAttributeJson, _ := json.Marshal(parentJsonpathAttributeString)
+	str := fmt.Sprintf(`{"ALL":{"parentJsonpathAttribute":%v,`, string(parentJsonpathAttributeJson))
 	if len(returnValueJsonpath) > 0 {
 		returnValueJsonpathJson, _ := json.Marshal(returnValueJsonpath)
 		str = fmt.Sprintf(`%v"returnValueJsonpath":%v,`, str, string(returnValueJsonpathJson))
diff --git a/MAPL_engine/definitions_rule.go b/MAPL_engine/definitions_rule.go
index ca747d7..2f3b3c0 100644
--- a/MAPL_engine/definitions_rule.go
+++ b/MAPL_engine/definitions_rule.go
@@ -294,8 +294,6 @@ func (c *Condition) MarshalJSON() ([]byte, error) {
 	if len(c.OriginalAttribute) > 0 {
 		attributeString = c.OriginalAttribute
 	}
-	attributeString = strings.Replace(attributeString, "\\", "\\\\", -1)
-	attributeString = strings.Replace(attributeString, "\"", "\\\"", -1)
 
 	methodString := c.Method
 	if len(c.OriginalMethod) > 0 {
@@ -306,19 +304,20 @@ func (c *Condition) MarshalJSON() ([]byte, error) {
 	if len(c.OriginalValue) > 0 {
 		valueString = c.OriginalValue
 	}
-	valueString = strings.Replace(valueString, "\\", "\\\\", -1)
-	valueString = strings.Replace(valueString, "\"", "\\\"", -1)
 
 	returnValueJsonpath := c.ReturnValueJsonpath
 	if len(c.ReturnValueJsonpathOriginal) > 0 {
 		returnValueJsonpath = c.ReturnValueJsonpathOriginal
 	}
 
-	str := fmt.Sprintf(`{"condition":{"attribute":"%v","method":"%v","value":"%v"}}`, attributeString, methodString, valueString)
+	attributeJson, _ := json.Marshal(attributeString)
+	methodJson, _ := json.Marshal(methodString)
+	valueJson, _ := json.Marshal(valueString)
+	str := fmt.Sprintf(`{"condition":{"attribute":%v,"method":%v,"value":%v}}`, string(attributeJson), string(methodJson), string(valueJson))
 
 	if returnValueJsonpath != nil {
 		returnValueJsonpathJson, _ := json.Marshal(returnValueJsonpath)
-		str = fmt.Sprintf(`{"condition":{"attribute":"%v","method":"%v","value":"%v","returnValueJsonpath":%v}}`, attributeString, methodString, valueString, string(returnValueJsonpathJson))
+		str = fmt.Sprintf(`{"condition":{"attribute":%v,"method":%v,"value":%v,"returnValueJsonpath":%v}}`, string(attributeJson), string(methodJson), string(valueJson), string(returnValueJsonpathJson))
 	}
 	return []byte(str), nil
 }
-- 
2.43.0


From 95e044059e24db81d343dcdca610353ab131aa18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:33:32 +0000
Subject: [PATCH 19/29] fix: report conditions that cannot be translated to a
 query

---
 MAPL_engine/mongo_plugin.go | 35 +++++++++++++++++++++++++++--------
 1 file changed, 27 insertions(+), 8 deletions(-)

diff --git a/MAPL_engine/mongo_plugin.go b/MAPL_engine/mongo_plugin.go
index 2a60930..285fbbf 100644
--- a/MAPL_engine/mongo_plugin.go
+++ b/MAPL_engine/mongo_plugin.go
@@ -126,12 +126,23 @@ func (c *Condition) ToMongoQuery(base string, parentString string, inArrayCounte
 		return bson.M{}, []bson.M{}, fmt.Errorf("attribute is not a jsonpath")
 	}
 
+	originalAttribute := c.OriginalAttribute
+	if strings.HasPrefix(originalAttribute, "jsonpath:.") { // the same as "jsonpath:$."
+		originalAttribute = strings.Replace(originalAttribute, "jsonpath:.", "jsonpath:$.", 1)
+	}
+	if strings.Contains(originalAttribute, "..") {
+		return bson.M{}, []bson.M{}, fmt.Errorf("deepscan is not supported")
+	}
+	if originalAttribute == "jsonpath:$RELATIVE" {
+		return bson.M{}, []bson.M{}, fmt.Errorf("jsonpath without a field is not supported")
+	}
+
 	var field string
-	if strings.HasPrefix(c.OriginalAttribute, "jsonpath:$RELATIVE") {
-		field = strings.Replace(c.OriginalAttribute, "jsonpath:$RELATIVE.", "", 1)
+	if strings.HasPrefix(originalAttribute, "jsonpath:$RELATIVE") {
+		field = strings.Replace(originalAttribute, "jsonpath:$RELATIVE.", "", 1)
 	}
 
-	if strings.HasPrefix(c.OriginalAttribute, "jsonpath:$VALUE") {
+	if strings.HasPrefix(originalAttribute, "jsonpath:$VALUE") {
 
 		if inArrayCounter >= 2 {
 			return bson.M{}, []bson.M{}, fmt.Errorf("VALUE within array is not supported") // if neccessary we can do [$unwind, $addFields, $merge] steps!
@@ -139,7 +150,10 @@ func (c *Condition) ToMongoQuery(base string, parentString string, inArrayCounte
 		//if strings.Contains(c.OriginalAttribute,"jsonpath:$VALUE."){
 		//	return bson.M{}, []bson.M{}, fmt.Errorf("json VALUE is not supported")
 		//}
-		subField := strings.Replace(c.OriginalAttribute, "jsonpath:$VALUE", "", 1)
+		if parentString == "" {
+			return bson.M{}, []bson.M{}, fmt.Errorf("VALUE is supported only directly within an ANY node")
+		}
+		subField := strings.Replace(originalAttribute, "jsonpath:$VALUE", "", 1)
 		addedField := fmt.Sprintf("addedField.%v", parentString)
 		field = fmt.Sprintf("%v.v%v", addedField, subField)
 
@@ -148,14 +162,17 @@ func (c *Condition) ToMongoQuery(base string, parentString string, inArrayCounte
 		initialSteps = append(initialSteps, addFieldStep)
 	}
 
-	if strings.HasPrefix(c.OriginalAttribute, "jsonpath:$KEY") {
+	if strings.HasPrefix(originalAttribute, "jsonpath:$KEY") {
 
 		if inArrayCounter >= 2 {
 			return bson.M{}, []bson.M{}, fmt.Errorf("KEY within array is not supported")
 		}
-		if strings.Contains(c.OriginalAttribute, "jsonpath:$KEY.") {
+		if strings.Contains(originalAttribute, "jsonpath:$KEY.") {
 			return bson.M{}, []bson.M{}, fmt.Errorf("json KEY is not supported")
 		}
+		if parentString == "" {
+			return bson.M{}, []bson.M{}, fmt.Errorf("KEY is supported only directly within an ANY node")
+		}
 
 		field0 := parentString
 		field1 := fmt.Sprintf("addedField.%v", field0)
@@ -166,13 +183,13 @@ func (c *Condition) ToMongoQuery(base string, parentString string, inArrayCounte
 		initialSteps = append(initialSteps, addFieldStep)
 	}
 
-	if strings.HasPrefix(c.OriginalAttribute, "jsonpath:$.") {
+	if strings.HasPrefix(originalAttribute, "jsonpath:$.") {
 
 		newBase := ""
 		if len(base) > 0 {
 			newBase = base + "."
 		}
-		field = strings.Replace(c.OriginalAttribute, "jsonpath:$.", newBase, 1)
+		field = strings.Replace(originalAttribute, "jsonpath:$.", newBase, 1)
 	}
 
 	field, err := removeQuotes(field)
@@ -216,6 +233,8 @@ func (c *Condition) ToMongoQuery(base string, parentString string, inArrayCounte
 		// db.raw_data.find({"$and":[{"raw.metadata.labels.foo":{"$not":{"$regex":"ar2"}}},{"raw.metadata.labels.foo":{"$exists":true}}]})
 	case "IN", "NIN": // it is not supported natively. we convert it to RE/NRE first which are supported.
 		return bson.M{}, []bson.M{}, fmt.Errorf("methods IN,NIN are not supported yet")
+	default:
+		return bson.M{}, []bson.M{}, fmt.Errorf("method not supported: %v", c.Method)
 	}
 
 	return q, initialSteps, nil
-- 
2.43.0


From e11875c55018762ea59409b6a9e9e3bee7180ac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:33:32 +0000
Subject: [PATCH 20/29] fix: report parent paths that cannot be translated to a
 query

---
 MAPL_engine/mongo_plugin.go | 47 +++++++++++++++++++++++++++----------
 1 file changed, 35 insertions(+), 12 deletions(-)

diff --git a/MAPL_engine/mongo_plugin.go b/MAPL_engine/mongo_plugin.go
index 285fbbf..f76da23 100644
--- a/MAPL_engine/mongo_plugin.go
+++ b/MAPL_engine/mongo_plugin.go
@@ -64,13 +64,10 @@ func (a *All) ToMongoQuery(base string, parentString string, inArrayCounter int)
 	if strings.HasSuffix(a.ParentJsonpathAttributeOriginal, "[:]") || strings.HasSuffix(a.ParentJsonpathAttributeOriginal, "[*]") {
 		inArrayCounter += 1
 	}
-	if strings.HasPrefix(a.ParentJsonpathAttributeOriginal, "jsonpath:$..") {
-		return bson.M{}, []bson.M{}, fmt.Errorf("deepscan is not supported")
+	parentField, err := getParentField(a.ParentJsonpathAttributeOriginal, base)
+	if err != nil {
+		return bson.M{}, []bson.M{}, err
 	}
-	parentField := strings.Replace(a.ParentJsonpathAttributeOriginal, "jsonpath:$.", base+".", 1)
-	parentField = strings.Replace(parentField, "jsonpath:$RELATIVE.", "", 1)
-	parentField = strings.Replace(parentField, "[:]", "", -1)
-	parentField = strings.Replace(parentField, "[*]", "", -1)
 
 	q, pipeline, err := a.Node.ToMongoQuery(base, "", inArrayCounter+1)
 	if err != nil {
@@ -94,13 +91,10 @@ func (a *Any) ToMongoQuery(base string, parentString string, inArrayCounter int)
 		inArrayCounter += 1
 	}
 
-	if strings.HasPrefix(a.ParentJsonpathAttributeOriginal, "jsonpath:$..") {
-		return bson.M{}, []bson.M{}, fmt.Errorf("deepscan is not supported")
+	parentField, err := getParentField(a.ParentJsonpathAttributeOriginal, base)
+	if err != nil {
+		return bson.M{}, []bson.M{}, err
 	}
-	parentField := strings.Replace(a.ParentJsonpathAttributeOriginal, "jsonpath:$.", base+".", 1)
-	parentField = strings.Replace(parentField, "jsonpath:$RELATIVE.", "", 1)
-	parentField = strings.Replace(parentField, "[:]", "", -1)
-	parentField = strings.Replace(parentField, "[*]", "", -1)
 
 	q, pipeline, err := a.Node.ToMongoQuery(base, parentField, inArrayCounter+1)
 	if err != nil {
@@ -240,6 +234,35 @@ func (c *Condition) ToMongoQuery(base string, parentString string, inArrayCounte
 	return q, initialSteps, nil
 }
 
+func getParentField(parentJsonpathAttribute string, base string) (string, error) {
+	if strings.Contains(parentJsonpathAttribute, "..") {
+		return "", fmt.Errorf("deepscan is not supported")
+	}
+	if strings.Contains(parentJsonpathAttribute, ",") {
+		return "", fmt.Errorf("list of parent paths is not supported")
+	}
+
+	newBase := ""
+	if len(base) > 0 {
+		newBase = base + "."
+	}
+
+	parentField := parentJsonpathAttribute
+	switch {
+	case strings.HasPrefix(parentField, "jsonpath:$."):
+		parentField = strings.Replace(parentField, "jsonpath:$.", newBase, 1)
+	case strings.HasPrefix(parentField, "jsonpath:."):
+		parentField = strings.Replace(parentField, "jsonpath:.", newBase, 1)
+	case strings.HasPrefix(parentField, "jsonpath:$RELATIVE."):
+		parentField = strings.Replace(parentField, "jsonpath:$RELATIVE.", "", 1)
+	default:
+		return "", fmt.Errorf("parent path is not supported [%v]", parentJsonpathAttribute)
+	}
+	parentField = strings.Replace(parentField, "[:]", "", -1)
+	parentField = strings.Replace(parentField, "[*]", "", -1)
+	return parentField, nil
+}
+
 func isNumber(str string) (bool, float64) {
 	if s, err := strconv.ParseFloat(str, 64); err == nil {
 		return true, s
-- 
2.43.0


From 3a3782e250070ee2fd4db21bd4e2d3ab6a16105f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:33:32 +0000
Subject: [PATCH 21/29] fix: do not crash on the strings of a rule without
 conditions

---
 MAPL_engine/tools.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MAPL_engine/tools.go b/MAPL_engine/tools.go
index 9a57538..cb033b1 100644
--- a/MAPL_engine/tools.go
+++ b/MAPL_engine/tools.go
@@ -158,7 +158,7 @@ func GetRuleStrings(r *Rule) RuleStrings {
 		output.DecisionString = r.Decision
 	}
 
-	output.ConditionsString = r.Conditions.ConditionsTree.String()
+	output.ConditionsString = RuleConditionsToString(*r)
 
 	return output
 }
-- 
2.43.0


From 865d46ae8cdfb004f88002833514f3c6335f1470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:33:32 +0000
Subject: [PATCH 22/29] fix: ignore brackets inside strings when splitting
 selected elements

---
 MAPL_engine/check.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/MAPL_engine/check.go b/MAPL_engine/check.go
index e2c7b07..b8e5c52 100755
--- a/MAPL_engine/check.go
+++ b/MAPL_engine/check.go
@@ -1099,7 +1099,20 @@ func getArrayOfJsonsFromInterfaceArray(arrayData []byte) ([][]byte, error) {
 	arrayJson := [][]byte{}
 	c := 0
 	start := -1
+	inString := false
 	for i := 0; i < len(arrayData); i++ {
+		if inString { // brackets inside a string are part of the text
+			if arrayData[i] == '\\' {
+				i++
+			} else if arrayData[i] == '"' {
+				inString = false
+			}
+			continue
+		}
+		if arrayData[i] == '"' {
+			inString = true
+			continue
+		}
 		if arrayData[i] == '{' {
 			if c == 0 {
 				start = i
-- 
2.43.0


From 6fa2218015a21e811b29ea804d864b61b881f26d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:33:54 +0000
Subject: [PATCH 23/29] fix: keep nested arrays of selected elements intact

---
 MAPL_engine/check.go | 36 +-----------------------------------
 1 file changed, 1 insertion(+), 35 deletions(-)

diff --git a/MAPL_engine/check.go b/MAPL_engine/check.go
index b8e5c52..1a38fe9 100755
--- a/MAPL_engine/check.go
+++ b/MAPL_engine/check.go
@@ -1050,10 +1050,7 @@ func getArrayOfJsons(a AnyAllNode, message *MessageAttributes) ([][]byte, error)
 		return [][]byte{}, err
 	}
 
-	arrayData, err = getArrayFromArrayOfArrays(arrayData)
-	if err != nil {
-		return [][]byte{}, err
-	}
+	arrayData = pretty.Ugly(arrayData) // faster then json.Compact by a factor of ~6
 
 	arrayJson, err := getArrayOfJsonsFromInterfaceArray(arrayData)
 
@@ -1153,34 +1150,3 @@ func getArrayOfJsonsFromMapStringInterface(arrayData []byte) ([][]byte, error) {
 	}
 	return arrayJson, nil
 }
-
-func getArrayFromArrayOfArrays(arrayData []byte) ([]byte, error) {
-	if len(arrayData) < 2 {
-		return arrayData, nil
-	}
-
-	/*  slow. we should use "pretty.Ugly" instead
-	buffer := new(bytes.Buffer) // clean the json
-	err := json.Compact(buffer, arrayData)
-	if err != nil {
-		return []byte{}, err
-	}
-	arrayDataNew = buffer.Bytes()
-	*/
-
-	arrayDataNew := pretty.Ugly(arrayData) // faster then json.Compact by a factor of ~6
-
-	if arrayDataNew[0] != '[' || arrayDataNew[1] != '[' {
-		return arrayDataNew, nil
-	}
-
-	arrayDataString := string(arrayDataNew)
-	arrayDataString = strings.Replace(arrayDataString, "[[", "[", 1)
-	arrayDataString = strings.Replace(arrayDataString, "]]", "]", 1)
-	arrayDataString = strings.Replace(arrayDataString, "],[", ",", -1)
-
-	if strings.Contains(arrayDataString, "[[") || strings.Contains(arrayDataString, "]]") {
-		return []byte{}, fmt.Errorf("malformed arrayData")
-	}
-	return []byte(arrayDataString), nil
-}
-- 
2.43.0


From ab205d4b7c74c3aef8319d0f1ac7468fff258fae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:33:54 +0000
Subject: [PATCH 24/29] fix: select from the current element for every relative
 parent path

---
 MAPL_engine/check.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/MAPL_engine/check.go b/MAPL_engine/check.go
index 1a38fe9..4021369 100755
--- a/MAPL_engine/check.go
+++ b/MAPL_engine/check.go
@@ -930,7 +930,7 @@ func getArrayOfInterfaces(a AnyAllNode, message *MessageAttributes) ([]interface
 	var arrayDataInterface interface{}
 	err := errors.New("error")
 	parentJsonpath := a.GetParentJsonpathAttribute()
-	if strings.HasPrefix(parentJsonpath, "$RELATIVE.") || parentJsonpath == "$RELATIVE*" || strings.HasPrefix(parentJsonpath, "$KEY.") || strings.HasPrefix(parentJsonpath, "$VALUE.") { // to-do: create a flag once when parsing!
+	if strings.HasPrefix(parentJsonpath, "$RELATIVE") || strings.HasPrefix(parentJsonpath, "$KEY.") || strings.HasPrefix(parentJsonpath, "$VALUE.") { // to-do: create a flag once when parsing!
 
 		if message.RequestRawInterfaceRelative == nil {
 			return []interface{}{}, errors.New("no relative data in the message")
@@ -1017,13 +1017,14 @@ func getArrayOfJsons(a AnyAllNode, message *MessageAttributes) ([][]byte, error)
 	err := errors.New("error")
 	parentJsonpathList := a.GetParentJsonpathAttributeArray()
 	for _, parentJsonpath := range parentJsonpathList {
-		if strings.HasPrefix(parentJsonpath, "$RELATIVE.") || parentJsonpath == "$RELATIVE*" || strings.HasPrefix(parentJsonpath, "$KEY.") || strings.HasPrefix(parentJsonpath, "$VALUE.") { // to-do: create a flag once when parsing!
+		if strings.HasPrefix(parentJsonpath, "$RELATIVE") || strings.HasPrefix(parentJsonpath, "$KEY.") || strings.HasPrefix(parentJsonpath, "$VALUE.") { // to-do: create a flag once when parsing!
 			parentJsonpath = strings.Replace(parentJsonpath, "$RELATIVE.", "$.", 1)
 			parentJsonpath = strings.Replace(parentJsonpath, "$KEY.", "$.", 1) // to do: this is not supported. remove
 			parentJsonpath = strings.Replace(parentJsonpath, "$VALUE.", "$.", 1)
 			if parentJsonpath == "$RELATIVE*" {
 				parentJsonpath = "$*"
 			}
+			parentJsonpath = strings.Replace(parentJsonpath, "$RELATIVE", "$", 1)
 			if message.RequestJsonRawRelative == nil {
 				return [][]byte{}, errors.New("no relative data in the message")
 			}
-- 
2.43.0


From 93478be933b269527494c6c080628e324ea37d2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:33:54 +0000
Subject: [PATCH 25/29] fix: compare large numbers of parsed messages in plain
 notation

---
 MAPL_engine/check.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/MAPL_engine/check.go b/MAPL_engine/check.go
index 4021369..6daf864 100755
--- a/MAPL_engine/check.go
+++ b/MAPL_engine/check.go
@@ -643,10 +643,12 @@ func testJsonPathConditionOnInterface(c *Condition, message *MessageAttributes)
 	}
 
 	var valueToCompareString string
-	switch valueToCompareInterface.(type) {
+	switch value := valueToCompareInterface.(type) {
 	case map[string]interface{}, []interface{}:
 		jsonBytes, _ := json.Marshal(valueToCompareInterface)
 		valueToCompareString = string(jsonBytes)
+	case float64:
+		valueToCompareString = strconv.FormatFloat(value, 'f', -1, 64) // as it is written in the raw bytes
 	default:
 		valueToCompareString = fmt.Sprintf("%v", valueToCompareInterface)
 	}
-- 
2.43.0


From 407d70ad2384a2ff6b78ab541803872b84e76e9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:34:05 +0000
Subject: [PATCH 26/29] fix: read text and null found in raw bytes as in parsed
 messages

---
 MAPL_engine/check.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/MAPL_engine/check.go b/MAPL_engine/check.go
index 6daf864..ba859e8 100755
--- a/MAPL_engine/check.go
+++ b/MAPL_engine/check.go
@@ -551,6 +551,10 @@ func testJsonPathCondition(c *Condition, message *MessageAttributes) bool {
 	}
 
 	valueToCompareString := string(valueToCompareBytes)
+	var text string
+	if json.Unmarshal(valueToCompareBytes, &text) == nil { // a string without its quotes and escapes, or null which is empty
+		valueToCompareString = text
+	}
 	if len(valueToCompareString) == 0 {
 		return whatToReturnInCaseOfEmptyResult(*c)
 	}
@@ -653,7 +657,7 @@ func testJsonPathConditionOnInterface(c *Condition, message *MessageAttributes)
 		valueToCompareString = fmt.Sprintf("%v", valueToCompareInterface)
 	}
 
-	if len(valueToCompareString) == 0 || valueToCompareString == "<nil>" {
+	if len(valueToCompareString) == 0 || valueToCompareInterface == nil {
 		return whatToReturnInCaseOfEmptyResult(*c)
 	}
 
@@ -775,7 +779,7 @@ func getKeyValue(jsonRaw []byte, attribute string) ([]byte, error) {
 		return []byte{}, err
 	}
 	if attribute == "$KEY" {
-		valueToCompareBytes = []byte(keys[0])
+		valueToCompareBytes, _ = json.Marshal(keys[0])
 	} else {
 		z2, err := json.Marshal(z[keys[0]])
 		if err != nil {
-- 
2.43.0


From d01af0323b3fb05fe11b879fc4c1b2613c4f0d66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:48:44 +0000
Subject: [PATCH 27/29] fix: an empty value of a prepared condition is rendered
 and saved as written

---
 MAPL_engine/definitions_rule.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/MAPL_engine/definitions_rule.go b/MAPL_engine/definitions_rule.go
index 2f3b3c0..1ce2eb1 100644
--- a/MAPL_engine/definitions_rule.go
+++ b/MAPL_engine/definitions_rule.go
@@ -282,7 +282,7 @@ func (c *Condition) String() string {
 	}
 
 	stringValue := c.Value
-	if len(c.OriginalValue) > 0 {
+	if len(c.OriginalMethod) > 0 { // prepared. the original value may be empty
 		stringValue = c.OriginalValue
 	}
 	return fmt.Sprintf("<%v-%v-%v>", stringAttribute, stringMethod, stringValue)
@@ -301,7 +301,7 @@ func (c *Condition) MarshalJSON() ([]byte, error) {
 	}
 
 	valueString := c.Value
-	if len(c.OriginalValue) > 0 {
+	if len(c.OriginalMethod) > 0 { // prepared. the original value may be empty
 		valueString = c.OriginalValue
 	}
 
-- 
2.43.0


From 108157ff2e1aaaeba5a2b8808566fef00ea48691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:37:35 +0000
Subject: [PATCH 28/29] fix: a path into an entry's value is looked up in
 parsed data as in raw data

---
 MAPL_engine/conditions_tree.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/MAPL_engine/conditions_tree.go b/MAPL_engine/conditions_tree.go
index ab7e631..6fb2f95 100755
--- a/MAPL_engine/conditions_tree.go
+++ b/MAPL_engine/conditions_tree.go
@@ -691,7 +691,11 @@ func (c *Condition) PrepareAndValidate(stringsAndlists PredefinedStringsAndLists
 	}
 
 	if c.AttributeIsJsonpath {
-		preparedJsonpath, err := prepareJsonpathQuery(c.AttributeJsonpathQuery)
+		query := c.AttributeJsonpathQuery
+		if strings.HasPrefix(query, "$VALUE.") { // looked up in the value itself
+			query = strings.Replace(query, "$VALUE.", "$.", 1)
+		}
+		preparedJsonpath, err := prepareJsonpathQuery(query)
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From b079844fe5704421a9e28164fadc50e086cf492b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:19:11 +0000
Subject: [PATCH 29/29] fix: keys of a mapping that read the same are rejected
 instead of one being kept at random

---
 MAPL_engine/conditions_tree.go | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/MAPL_engine/conditions_tree.go b/MAPL_engine/conditions_tree.go
index 6fb2f95..11bfbb3 100755
--- a/MAPL_engine/conditions_tree.go
+++ b/MAPL_engine/conditions_tree.go
@@ -748,7 +748,10 @@ func InterpretNode(node interface{}, parentString string) (Node, error) {
 
 func handleMapInterfaceInterface(v map[interface{}]interface{}, parentString string) (Node, error) {
 
-	v2 := mapInterfaceToMapString(v)
+	v2, err := mapInterfaceToMapString(v)
+	if err != nil {
+		return nil, err
+	}
 	return handleMapStringInterface(v2, parentString)
 
 }
@@ -828,7 +831,11 @@ func isValidConditionNode(v map[string]interface{}) error {
 			case map[string]interface{}:
 				paths = val2
 			case map[interface{}]interface{}:
-				paths = mapInterfaceToMapString(val2)
+				var err error
+				paths, err = mapInterfaceToMapString(val2)
+				if err != nil {
+					return err
+				}
 			case nil:
 			default:
 				return fmt.Errorf("invalid returnValueJsonpath [%v is not map[string]interface]", val)
@@ -889,7 +896,10 @@ func getAnyAllNode(v2 map[string]interface{}, parentString string) (Node, error)
 			case map[string]interface{}:
 				returnValueJsonpath = val.(map[string]interface{})
 			case map[interface{}]interface{}:
-				returnValueJsonpath = mapInterfaceToMapString(val.(map[interface{}]interface{}))
+				returnValueJsonpath, err = mapInterfaceToMapString(val.(map[interface{}]interface{}))
+				if err != nil {
+					return nil, err
+				}
 			default:
 				return nil, fmt.Errorf("invalid returnValueJsonpath [%v is not map[string]interface]", val)
 			}
@@ -961,12 +971,16 @@ func isValidParentJsonpathAttribute(parentJsonpathAttribute string) bool {
 	return true
 }
 
-func mapInterfaceToMapString(node map[interface{}]interface{}) map[string]interface{} {
+func mapInterfaceToMapString(node map[interface{}]interface{}) (map[string]interface{}, error) {
 	node_out := make(map[string]interface{})
 	for k, val := range node {
-		node_out[fmt.Sprintf("%v", k)] = val
+		key := fmt.Sprintf("%v", k)
+		if _, ok := node_out[key]; ok { // e.g. 1 and "1": only one of them could be kept
+			return nil, fmt.Errorf("key [%v] appears more than once", key)
+		}
+		node_out[key] = val
 	}
-	return node_out
+	return node_out, nil
 }
 
 func getNodeValType(node map[string]interface{}, parentString string) (interface{}, string, error) {
-- 
2.43.0

