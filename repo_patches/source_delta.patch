From 6eec277e88fa1f0dc42e2c1b5e4453e5cd224ec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:21 +0000
Subject: [PATCH 01/19] fix: compare definitions and extensions of one type
 separately and merge repeated extensions

Persisted types were kept in a map by name, so the extension of a type
displaced its definition, and only the first of several extension blocks
of one type was compared.
---
 pkg/compare/compare.go | 48 ++++++++++++++++++++++++++++++++++--------
 1 file changed, 39 insertions(+), 9 deletions(-)

diff --git a/pkg/compare/compare.go b/pkg/compare/compare.go
index e7b66b9..fd21c24 100644
--- a/pkg/compare/compare.go
+++ b/pkg/compare/compare.go
@@ -272,22 +272,52 @@ func changesInSchemaOperation(oldOp *ast.OperationTypeDefinition, newOp *ast.Ope
 	return changes
 }
 
+// persistedType is a type (or an extended type) present in both schemas
+type persistedType struct {
+	oldDef *ast.Definition
+	newDef *ast.Definition
+}
+
+// mergeByName combines the definitions that share a name, e.g. several extensions of one type
+func mergeByName(defs ast.DefinitionList) ast.DefinitionList {
+	var merged ast.DefinitionList
+	indexes := map[string]int{}
+	for _, def := range defs {
+		i, found := indexes[def.Name]
+		if !found {
+			indexes[def.Name] = len(merged)
+			merged = append(merged, def)
+			continue
+		}
+		first := *merged[i]
+		first.Directives = append(append(ast.DirectiveList{}, first.Directives...), def.Directives...)
+		first.Interfaces = append(append([]string{}, first.Interfaces...), def.Interfaces...)
+		first.Fields = append(append(ast.FieldList{}, first.Fields...), def.Fields...)
+		first.Types = append(append([]string{}, first.Types...), def.Types...)
+		first.EnumValues = append(append(ast.EnumValueList{}, first.EnumValues...), def.EnumValues...)
+		merged[i] = &first
+	}
+	return merged
+}
+
 // changeInTypes change in al the types
 func changeInTypes(oldSchema *ast.SchemaDocument, newSchema *ast.SchemaDocument) []*Change {
 	var changes []*Change
-	persistedType := map[string][]*ast.Definition{}
+	var persistedTypes []persistedType
 	//Check if types added/removed/persisted
-	changes = append(changes, checkTypeRemoved(oldSchema.Definitions, newSchema.Definitions, persistedType, false)...)
+	changes = append(changes, checkTypeRemoved(oldSchema.Definitions, newSchema.Definitions, &persistedTypes, false)...)
 	changes = append(changes, checkTypeAdded(oldSchema.Definitions, newSchema.Definitions, false)...)
 
 	//Check if extended types added/removed/persisted
-	changes = append(changes, checkTypeRemoved(oldSchema.Extensions, newSchema.Extensions, persistedType, true)...)
-	changes = append(changes, checkTypeAdded(oldSchema.Extensions, newSchema.Extensions, true)...)
+	oldExtensions := mergeByName(oldSchema.Extensions)
+	newExtensions := mergeByName(newSchema.Extensions)
+	changes = append(changes, checkTypeRemoved(oldExtensions, newExtensions, &persistedTypes, true)...)
+	changes = append(changes, checkTypeAdded(oldExtensions, newExtensions, true)...)
 
 	//compare persisted types for changes in fields/directives
-	for _, defs := range persistedType {
-		ot := defs[0]
-		nt := defs[1]
+	for _, persisted := range persistedTypes {
+		ot := persisted.oldDef
+		nt := persisted.newDef
 		if ot.Kind == ast.Enum && nt.Kind == ast.Enum {
 			changes = append(changes, changeInEnum(ot, nt)...)
 		}
@@ -328,7 +358,7 @@ func changeInTypes(oldSchema *ast.SchemaDocument, newSchema *ast.SchemaDocument)
 	return changes
 }
 
-func checkTypeRemoved(oldSchemaDefs ast.DefinitionList, newSchemaDefs ast.DefinitionList, persistedType map[string][]*ast.Definition, isExtended bool) []*Change {
+func checkTypeRemoved(oldSchemaDefs ast.DefinitionList, newSchemaDefs ast.DefinitionList, persistedTypes *[]persistedType, isExtended bool) []*Change {
 	var changes []*Change
 	for _, ot := range oldSchemaDefs {
 		nt := newSchemaDefs.ForName(ot.Name)
@@ -346,7 +376,7 @@ func checkTypeRemoved(oldSchemaDefs ast.DefinitionList, newSchemaDefs ast.Defini
 				position:         ot.Position,
 			})
 		} else {
-			persistedType[ot.Name] = []*ast.Definition{ot, nt}
+			*persistedTypes = append(*persistedTypes, persistedType{oldDef: ot, newDef: nt})
 		}
 	}
 	return changes
-- 
2.43.0


From 27e200f503134a058063c419aea6059139c369fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:55 +0000
Subject: [PATCH 02/19] fix: compare the root operation types in effect

Only the first schema block and the first schema extension were compared,
each on its own, so a root declared in another extension was missed, and
moving a root between them or spelling out the default roots was reported
as a change.
---
 pkg/compare/compare.go | 78 ++++++++++++++++++++++--------------------
 1 file changed, 41 insertions(+), 37 deletions(-)

diff --git a/pkg/compare/compare.go b/pkg/compare/compare.go
index fd21c24..8f98c3e 100644
--- a/pkg/compare/compare.go
+++ b/pkg/compare/compare.go
@@ -183,55 +183,59 @@ func (c Criticality) String() string {
 func FindChangesInSchemas(oldSchema *ast.SchemaDocument, newSchema *ast.SchemaDocument) []*Change {
 	var changes []*Change
 	changes = []*Change{}
-	changes = append(changes, changeInSchema(oldSchema.Schema, newSchema.Schema)...)
-	changes = append(changes, changeInSchema(oldSchema.SchemaExtension, newSchema.SchemaExtension)...)
+	changes = append(changes, changeInSchema(oldSchema, newSchema)...)
 	changes = append(changes, changeInTypes(oldSchema, newSchema)...)
 	changes = append(changes, changeInDirective(oldSchema.Directives, newSchema.Directives)...)
 	return changes
 }
 
 // changeInSchema change in schema root operations
-func changeInSchema(oldSchemaDefs ast.SchemaDefinitionList, newSchemaDefs ast.SchemaDefinitionList) []*Change {
+func changeInSchema(oldSchema *ast.SchemaDocument, newSchema *ast.SchemaDocument) []*Change {
 	var changes []*Change
-	if len(oldSchemaDefs) == 0 && len(newSchemaDefs) == 0 {
+	oldOps, oldDeclared := rootOperations(oldSchema)
+	newOps, newDeclared := rootOperations(newSchema)
+	if !oldDeclared && !newDeclared {
 		return changes
 	}
-	if len(oldSchemaDefs) > 0 && len(newSchemaDefs) == 0 {
-		oldQuery := getOperationForName(oldSchemaDefs[0].OperationTypes, ast.Query)
-		changes = append(changes, changesInSchemaOperation(oldQuery, nil, ast.Query)...)
-
-		oldMutation := getOperationForName(oldSchemaDefs[0].OperationTypes, ast.Mutation)
-		changes = append(changes, changesInSchemaOperation(oldMutation, nil, ast.Mutation)...)
-
-		oldSubscription := getOperationForName(oldSchemaDefs[0].OperationTypes, ast.Subscription)
-		changes = append(changes, changesInSchemaOperation(oldSubscription, nil, ast.Subscription)...)
-		return changes
+	for _, op := range []ast.Operation{ast.Query, ast.Mutation, ast.Subscription} {
+		changes = append(changes, changesInSchemaOperation(getOperationForName(oldOps, op), getOperationForName(newOps, op), op)...)
 	}
-	if len(oldSchemaDefs) == 0 && len(newSchemaDefs) > 0 {
-		newQuery := getOperationForName(newSchemaDefs[0].OperationTypes, ast.Query)
-		changes = append(changes, changesInSchemaOperation(nil, newQuery, ast.Query)...)
-
-		newMutation := getOperationForName(newSchemaDefs[0].OperationTypes, ast.Mutation)
-		changes = append(changes, changesInSchemaOperation(nil, newMutation, ast.Mutation)...)
+	return changes
+}
 
-		newSubscription := getOperationForName(newSchemaDefs[0].OperationTypes, ast.Subscription)
-		changes = append(changes, changesInSchemaOperation(nil, newSubscription, ast.Subscription)...)
-		return changes
+// rootOperations returns the root operations in effect, declared by any schema block or schema extension or,
+// without a schema block, by the default type names; and whether the schema declares any of them itself
+func rootOperations(schema *ast.SchemaDocument) (ast.OperationTypeDefinitionList, bool) {
+	var ops ast.OperationTypeDefinitionList
+	for _, def := range schema.Schema {
+		ops = append(ops, def.OperationTypes...)
 	}
-
-	oldQuery := getOperationForName(oldSchemaDefs[0].OperationTypes, ast.Query)
-	newQuery := getOperationForName(newSchemaDefs[0].OperationTypes, ast.Query)
-	changes = append(changes, changesInSchemaOperation(oldQuery, newQuery, ast.Query)...)
-
-	oldMutation := getOperationForName(oldSchemaDefs[0].OperationTypes, ast.Mutation)
-	newMutation := getOperationForName(newSchemaDefs[0].OperationTypes, ast.Mutation)
-	changes = append(changes, changesInSchemaOperation(oldMutation, newMutation, ast.Mutation)...)
-
-	oldSubscription := getOperationForName(oldSchemaDefs[0].OperationTypes, ast.Subscription)
-	newSubscription := getOperationForName(newSchemaDefs[0].OperationTypes, ast.Subscription)
-	changes = append(changes, changesInSchemaOperation(oldSubscription, newSubscription, ast.Subscription)...)
-
-	return changes
+	for _, def := range schema.SchemaExtension {
+		ops = append(ops, def.OperationTypes...)
+	}
+	declared := len(ops) > 0
+	if len(schema.Schema) > 0 {
+		return ops, declared
+	}
+	defaultRoots := ast.OperationTypeDefinitionList{
+		{Operation: ast.Query, Type: "Query"},
+		{Operation: ast.Mutation, Type: "Mutation"},
+		{Operation: ast.Subscription, Type: "Subscription"},
+	}
+	for _, root := range defaultRoots {
+		if getOperationForName(ops, root.Operation) != nil {
+			continue
+		}
+		def := schema.Definitions.ForName(root.Type)
+		if def == nil {
+			def = schema.Extensions.ForName(root.Type)
+		}
+		if def != nil && def.Kind == ast.Object {
+			root.Position = def.Position
+			ops = append(ops, root)
+		}
+	}
+	return ops, declared
 }
 
 func changesInSchemaOperation(oldOp *ast.OperationTypeDefinition, newOp *ast.OperationTypeDefinition, op ast.Operation) []*Change {
-- 
2.43.0


From 6c6db4f9e43e49c409552aa84ad47003d3519356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:56 +0000
Subject: [PATCH 03/19] fix: name the root types and the added repeatable flag
 in change messages

The message of a changed root printed the operation twice instead of the
old and the new type, and an added repeatable flag was called removed.
---
 pkg/compare/compare.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/compare/compare.go b/pkg/compare/compare.go
index 8f98c3e..5ef0967 100644
--- a/pkg/compare/compare.go
+++ b/pkg/compare/compare.go
@@ -269,7 +269,7 @@ func changesInSchemaOperation(oldOp *ast.OperationTypeDefinition, newOp *ast.Ope
 		changes = append(changes, &Change{
 			changeType:       changeType,
 			criticalityLevel: Breaking,
-			message:          fmt.Sprintf("Schema %s root has changed from '%s' to '%s'", op, oldOp.Operation, newOp.Operation),
+			message:          fmt.Sprintf("Schema %s root has changed from '%s' to '%s'", op, oldOp.Type, newOp.Type),
 			position:         newOp.Position,
 		})
 	}
@@ -550,7 +550,7 @@ func checkDirectiveRepeatableChanged(od *ast.DirectiveDefinition, nd *ast.Direct
 		changes = append(changes, &Change{
 			changeType:       DirectiveRepeatableAdded,
 			criticalityLevel: NonBreaking,
-			message:          fmt.Sprintf("Repeatable flag was removed from '@%s' directive", od.Name),
+			message:          fmt.Sprintf("Repeatable flag was added to '@%s' directive", od.Name),
 			path:             fmt.Sprintf("@%s", nd.Name),
 			position:         nd.Position,
 		})
-- 
2.43.0


From 22fb3f224b14a6879f39d800f357388a6cfefca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:57 +0000
Subject: [PATCH 04/19] fix: report that an enum value is no longer deprecated

The removal was reported for fields and input fields, but not for enum values.
---
 pkg/compare/compare.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/pkg/compare/compare.go b/pkg/compare/compare.go
index 5ef0967..6abf150 100644
--- a/pkg/compare/compare.go
+++ b/pkg/compare/compare.go
@@ -59,6 +59,8 @@ const (
 	EnumValueDeprecationReasonChanged ChangeType = "ENUM_VALUE_DEPRECATION_REASON_CHANGED"
 	// EnumValueDeprecationAdded Enum Value Deprecation Added
 	EnumValueDeprecationAdded ChangeType = "ENUM_VALUE_DEPRECATION_ADDED"
+	// EnumValueDeprecationRemoved Enum Value Deprecation Removed
+	EnumValueDeprecationRemoved ChangeType = "ENUM_VALUE_DEPRECATION_REMOVED"
 	// FieldRemoved Field Removed
 	FieldRemoved ChangeType = "FIELD_REMOVED"
 	// FieldAdded Field Added
@@ -664,6 +666,15 @@ func checkEnumValueDeprecationChanged(oDef *ast.Definition, nv *ast.EnumValueDef
 			position:         nv.Position,
 		})
 	}
+	if oDep != nil && nDep == nil {
+		changes = append(changes, &Change{
+			changeType:       EnumValueDeprecationRemoved,
+			criticalityLevel: Dangerous,
+			message:          fmt.Sprintf("Enum value '%s' deprecation removed in enum '%s' ", ov.Name, oDef.Name),
+			path:             fmt.Sprintf("%s.%s", oDef.Name, ov.Name),
+			position:         nv.Position,
+		})
+	}
 	if oDep != nil && nDep != nil {
 		oReason := oDep.Arguments.ForName("reason")
 		nReason := nDep.Arguments.ForName("reason")
-- 
2.43.0


From 1e32b5781369bcdba42cb7730aae6ebd23c0820b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:58 +0000
Subject: [PATCH 05/19] fix: report a deprecation reason that is added or
 dropped

Reasons were only compared when both sides spell one out; a missing reason
means the default one.
---
 pkg/compare/compare.go | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/pkg/compare/compare.go b/pkg/compare/compare.go
index 6abf150..82fe481 100644
--- a/pkg/compare/compare.go
+++ b/pkg/compare/compare.go
@@ -3,6 +3,7 @@ package compare
 import (
 	"fmt"
 	"sort"
+	"strconv"
 
 	"github.com/vektah/gqlparser/v2/ast"
 )
@@ -131,7 +132,10 @@ const (
 	Breaking Criticality = 2
 )
 
-const deprecatedDirective = "deprecated"
+const (
+	deprecatedDirective      = "deprecated"
+	defaultDeprecationReason = "No longer supported"
+)
 
 // Change defines a change in schema
 type Change struct {
@@ -676,9 +680,7 @@ func checkEnumValueDeprecationChanged(oDef *ast.Definition, nv *ast.EnumValueDef
 		})
 	}
 	if oDep != nil && nDep != nil {
-		oReason := oDep.Arguments.ForName("reason")
-		nReason := nDep.Arguments.ForName("reason")
-		if oReason != nil && nReason != nil && oReason.Value.String() != nReason.Value.String() {
+		if deprecationReason(oDep) != deprecationReason(nDep) {
 			changes = append(changes, &Change{
 				changeType:       EnumValueDeprecationReasonChanged,
 				criticalityLevel: NonBreaking,
@@ -691,6 +693,15 @@ func checkEnumValueDeprecationChanged(oDef *ast.Definition, nv *ast.EnumValueDef
 	return changes
 }
 
+// deprecationReason returns the reason of a deprecation as it is printed in SDL, the default one if none is given
+func deprecationReason(deprecation *ast.Directive) string {
+	reason := deprecation.Arguments.ForName("reason")
+	if reason == nil {
+		return strconv.Quote(defaultDeprecationReason)
+	}
+	return reason.Value.String()
+}
+
 func checkEnumValuesAdded(oDef *ast.Definition, nDef *ast.Definition) []*Change {
 	var changes []*Change
 	for _, nv := range nDef.EnumValues {
@@ -916,9 +927,7 @@ func checkFieldDeprecationChanged(oDef *ast.Definition, nf *ast.FieldDefinition,
 		})
 	}
 	if oDep != nil && nDep != nil {
-		oReason := oDep.Arguments.ForName("reason")
-		nReason := nDep.Arguments.ForName("reason")
-		if oReason != nil && nReason != nil && oReason.Value.String() != nReason.Value.String() {
+		if deprecationReason(oDep) != deprecationReason(nDep) {
 			changeType := FieldDeprecationReasonChanged
 			if oDef.Kind == ast.InputObject {
 				changeType = InputFieldDeprecationReasonChanged
-- 
2.43.0


From 856cfc0f2d7ea69c943fa4f92398b533780ea3de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:28 +0000
Subject: [PATCH 06/19] fix: a non-null argument or input field added with a
 default is not required

Callers may leave it out, so adding it does not break existing operations.
---
 pkg/compare/compare.go | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/pkg/compare/compare.go b/pkg/compare/compare.go
index 82fe481..b110cde 100644
--- a/pkg/compare/compare.go
+++ b/pkg/compare/compare.go
@@ -455,8 +455,8 @@ func checkDirectiveArgumentAdded(od *ast.DirectiveDefinition, nd *ast.DirectiveD
 		oArg := od.Arguments.ForName(nArg.Name)
 		if oArg == nil {
 			//argument added to the field
-			//Adding non-nullable argument is a breaking change
-			if nArg.Type.NonNull {
+			//Adding a required argument is a breaking change
+			if isRequired(nArg.Type, nArg.DefaultValue) {
 				changes = append(changes, &Change{
 					changeType:       DirectiveArgumentAdded,
 					criticalityLevel: Breaking,
@@ -1030,7 +1030,7 @@ func checkFieldArgumentAdded(oDef *ast.FieldDefinition, nDef *ast.FieldDefinitio
 		oArg := oDef.Arguments.ForName(nArg.Name)
 		if oArg == nil {
 			//Adding a required argument to an existing field is a breaking change because it will cause existing uses of this field to error.
-			if nArg.Type.NonNull {
+			if isRequired(nArg.Type, nArg.DefaultValue) {
 				changes = append(changes, &Change{
 					changeType:       FieldArgumentAdded,
 					criticalityLevel: Breaking,
@@ -1129,7 +1129,7 @@ func checkInputFieldsAdded(oDef *ast.Definition, nDef *ast.Definition) []*Change
 	for _, nf := range nDef.Fields {
 		if oDef.Fields.ForName(nf.Name) == nil {
 			//input field added to the type
-			if nf.Type.NonNull {
+			if isRequired(nf.Type, nf.DefaultValue) {
 				//Adding a required input field to an existing input object type is a breaking change because it will cause existing uses of this input object type to error.
 				changes = append(changes, &Change{
 					changeType:       InputFieldAdded,
@@ -1332,6 +1332,11 @@ func isWrappingType(typ *ast.Type) bool {
 	return isListType(typ) || isNonNullType(typ)
 }
 
+// isRequired checks if callers must supply a value: the type does not admit null and there is no default
+func isRequired(typ *ast.Type, defaultValue *ast.Value) bool {
+	return typ.NonNull && defaultValue == nil
+}
+
 func getOperationForName(ops ast.OperationTypeDefinitionList, name ast.Operation) *ast.OperationTypeDefinition {
 	for _, op := range ops {
 		if op.Operation == name {
-- 
2.43.0


From 186542486a43076a0d31ac985ea5b389a1d224ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:29 +0000
Subject: [PATCH 07/19] fix: dropping the default of a non-null argument or
 input field is breaking

It makes the value required, so operations that leave it out stop being valid.
---
 pkg/compare/compare.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/pkg/compare/compare.go b/pkg/compare/compare.go
index b110cde..4bc8671 100644
--- a/pkg/compare/compare.go
+++ b/pkg/compare/compare.go
@@ -530,7 +530,7 @@ func checkDirectiveArgumentTypeChanged(od *ast.DirectiveDefinition, oArg *ast.Ar
 	if oArg.DefaultValue.String() != nArg.DefaultValue.String() {
 		changes = append(changes, &Change{
 			changeType:       DirectiveArgumentDefaultValueChanged,
-			criticalityLevel: Dangerous,
+			criticalityLevel: defaultChangeCriticality(oArg.DefaultValue, nArg.DefaultValue, nArg.Type),
 			message:          fmt.Sprintf("Argument '%s' default value changed from '%s' to '%s' in directive '@%s' ", oArg.Name, oArg.DefaultValue.String(), nArg.DefaultValue.String(), od.Name),
 			path:             fmt.Sprintf("@%s.%s", od.Name, oArg.Name),
 			position:         nArg.Position,
@@ -981,7 +981,7 @@ func changeInArgument(oDef *ast.FieldDefinition, nDef *ast.FieldDefinition, type
 			if oArg.DefaultValue.String() != nArg.DefaultValue.String() {
 				changes = append(changes, &Change{
 					changeType:       FieldArgumentDefaultChanged,
-					criticalityLevel: Dangerous,
+					criticalityLevel: defaultChangeCriticality(oArg.DefaultValue, nArg.DefaultValue, nArg.Type),
 					message:          fmt.Sprintf("Argument '%s' default value changed from '%s' to '%s' in '%s.%s' ", oArg.Name, oArg.DefaultValue.String(), nArg.DefaultValue.String(), typeName, oDef.Name),
 					path:             fmt.Sprintf("%s.%s.%s", typeName, oDef.Name, oArg.Name),
 					position:         nArg.Position,
@@ -1115,7 +1115,7 @@ func checkInputFieldTypeValueChanged(oDef *ast.Definition, of *ast.FieldDefiniti
 	if of.DefaultValue.String() != nf.DefaultValue.String() {
 		changes = append(changes, &Change{
 			changeType:       InputFieldDefaultValueChanged,
-			criticalityLevel: Dangerous,
+			criticalityLevel: defaultChangeCriticality(of.DefaultValue, nf.DefaultValue, nf.Type),
 			message:          fmt.Sprintf("Input field '%s.%s' default value changed from '%s' to '%s' in input object type", oDef.Name, of.Name, of.DefaultValue.String(), nf.DefaultValue.String()),
 			path:             fmt.Sprintf("%s.%s", oDef.Name, of.Name),
 			position:         nf.Position,
@@ -1337,6 +1337,15 @@ func isRequired(typ *ast.Type, defaultValue *ast.Value) bool {
 	return typ.NonNull && defaultValue == nil
 }
 
+// defaultChangeCriticality rates a changed default value: without its default a non-null argument or input field
+// must be supplied, so existing uses that leave it out will error
+func defaultChangeCriticality(oldDefault *ast.Value, newDefault *ast.Value, newType *ast.Type) Criticality {
+	if oldDefault != nil && isRequired(newType, newDefault) {
+		return Breaking
+	}
+	return Dangerous
+}
+
 func getOperationForName(ops ast.OperationTypeDefinitionList, name ast.Operation) *ast.OperationTypeDefinition {
 	for _, op := range ops {
 		if op.Operation == name {
-- 
2.43.0


From 8d6dd01e2da188706ff5d7088b070afaf745b7c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:09 +0000
Subject: [PATCH 08/19] fix: a repeated directive without arguments matches its
 equal

The comparison of repeated directives never found two empty argument lists
equal, so even identical schemas were reported as changed.
---
 pkg/compare/compare.go | 32 +++++++++++++++++---------------
 1 file changed, 17 insertions(+), 15 deletions(-)

diff --git a/pkg/compare/compare.go b/pkg/compare/compare.go
index 4bc8671..385c39b 100644
--- a/pkg/compare/compare.go
+++ b/pkg/compare/compare.go
@@ -1176,21 +1176,9 @@ func changeInTypeFieldDirectives(oDirs ast.DirectiveList, nDirs ast.DirectiveLis
 				//check if at least one directive from the list matches arguments
 				haveSameArgVals := false
 				for _, nd := range nDirList {
-					if len(od.Arguments) == len(nd.Arguments) {
-						for _, oArg := range od.Arguments {
-							nArg := nd.Arguments.ForName(oArg.Name)
-							if nArg != nil && oArg.Value.String() == nArg.Value.String() {
-								haveSameArgVals = true // args checked till now are same
-								continue
-							}
-							// We found first arg not matching so not need to check more args
-							haveSameArgVals = false
-							break
-						}
-						if haveSameArgVals {
-							// means the directive have all the arguments matching so no need to check other directives in the list
-							break
-						}
+					if haveSameArguments(od, nd) {
+						haveSameArgVals = true
+						break
 					}
 				}
 				if !haveSameArgVals {
@@ -1209,6 +1197,20 @@ func changeInTypeFieldDirectives(oDirs ast.DirectiveList, nDirs ast.DirectiveLis
 	return changes
 }
 
+// haveSameArguments checks if two directives of the same name are applied with the same arguments and values
+func haveSameArguments(od *ast.Directive, nd *ast.Directive) bool {
+	if len(od.Arguments) != len(nd.Arguments) {
+		return false
+	}
+	for _, oArg := range od.Arguments {
+		nArg := nd.Arguments.ForName(oArg.Name)
+		if nArg == nil || oArg.Value.String() != nArg.Value.String() {
+			return false
+		}
+	}
+	return true
+}
+
 func checkFieldDirectiveArgumentAdded(od *ast.Directive, nd *ast.Directive, typeName string) []*Change {
 	var changes []*Change
 	for _, nArg := range nd.Arguments {
-- 
2.43.0


From f9cc761a9c63706dc4fe5e305f4def88444caf13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:25 +0000
Subject: [PATCH 09/19] fix: report a further instance of a repeated directive
 as added

A directive was only reported as added when its name was new to the element.
---
 pkg/compare/compare.go | 49 +++++++++++++++++++++++++++---------------
 1 file changed, 32 insertions(+), 17 deletions(-)

diff --git a/pkg/compare/compare.go b/pkg/compare/compare.go
index 385c39b..56779d6 100644
--- a/pkg/compare/compare.go
+++ b/pkg/compare/compare.go
@@ -1174,14 +1174,7 @@ func changeInTypeFieldDirectives(oDirs ast.DirectiveList, nDirs ast.DirectiveLis
 				changes = append(changes, checkFieldDirectiveArgumentAdded(od, nd, typeName)...)
 			default:
 				//check if at least one directive from the list matches arguments
-				haveSameArgVals := false
-				for _, nd := range nDirList {
-					if haveSameArguments(od, nd) {
-						haveSameArgVals = true
-						break
-					}
-				}
-				if !haveSameArgVals {
+				if !containsDirective(nDirList, od) {
 					changes = append(changes, &Change{
 						changeType:       DirectiveChanged,
 						criticalityLevel: Dangerous,
@@ -1211,6 +1204,16 @@ func haveSameArguments(od *ast.Directive, nd *ast.Directive) bool {
 	return true
 }
 
+// containsDirective checks if a list has the directive with the same arguments and values
+func containsDirective(dirs []*ast.Directive, dir *ast.Directive) bool {
+	for _, d := range dirs {
+		if haveSameArguments(d, dir) {
+			return true
+		}
+	}
+	return false
+}
+
 func checkFieldDirectiveArgumentAdded(od *ast.Directive, nd *ast.Directive, typeName string) []*Change {
 	var changes []*Change
 	for _, nArg := range nd.Arguments {
@@ -1257,18 +1260,30 @@ func checkFieldDirectiveArgumentChanged(od *ast.Directive, nd *ast.Directive, ty
 
 func checkFieldDirectiveAdded(oDirs ast.DirectiveList, nDirs ast.DirectiveList, typeName string) []*Change {
 	var changes []*Change
+	//a repeated directive that takes the place of a changed one is not an addition
+	replaced := map[string]int{}
+	for _, od := range oDirs {
+		if !containsDirective(nDirs.ForNames(od.Name), od) {
+			replaced[od.Name]++
+		}
+	}
 	for _, nd := range nDirs {
 		if nd.Name != deprecatedDirective {
-			od := oDirs.ForName(nd.Name)
-			if od == nil {
-				changes = append(changes, &Change{
-					changeType:       DirectiveAdded,
-					criticalityLevel: NonBreaking,
-					message:          fmt.Sprintf("Directive '@%s' was added in '%s'", nd.Name, typeName),
-					path:             typeName,
-					position:         nd.Position,
-				})
+			oDirList := oDirs.ForNames(nd.Name)
+			if len(oDirList) == 1 && len(nDirs.ForNames(nd.Name)) == 1 || containsDirective(oDirList, nd) {
+				continue
+			}
+			if replaced[nd.Name] > 0 {
+				replaced[nd.Name]--
+				continue
 			}
+			changes = append(changes, &Change{
+				changeType:       DirectiveAdded,
+				criticalityLevel: NonBreaking,
+				message:          fmt.Sprintf("Directive '@%s' was added in '%s'", nd.Name, typeName),
+				path:             typeName,
+				position:         nd.Position,
+			})
 		}
 	}
 	return changes
-- 
2.43.0


From 7260c39808eea5119f483a4976e779c36aee6b68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:37 +0000
Subject: [PATCH 10/19] fix: parse the files of a schema in a fixed order

They were taken in map order, so the file a change was attributed to and
the order of changes on one line differed from run to run.
---
 utils/util.go | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/utils/util.go b/utils/util.go
index 264ea87..93599e0 100644
--- a/utils/util.go
+++ b/utils/util.go
@@ -5,6 +5,7 @@ import (
 	"io"
 	"os"
 	"path/filepath"
+	"sort"
 
 	"github.com/vektah/gqlparser/v2/ast"
 	"github.com/vektah/gqlparser/v2/parser"
@@ -13,10 +14,10 @@ import (
 // ParseSchema parse schema files and combine their sources
 func ParseSchema(schemaFileContents map[string][]byte) (*ast.SchemaDocument, error) {
 	var sources []*ast.Source
-	for fn, sf := range schemaFileContents {
+	for _, fn := range SortedFileNames(schemaFileContents) {
 		s := &ast.Source{
 			Name:  fn,
-			Input: string(sf),
+			Input: string(schemaFileContents[fn]),
 		}
 		sources = append(sources, s)
 	}
@@ -28,6 +29,16 @@ func ParseSchema(schemaFileContents map[string][]byte) (*ast.SchemaDocument, err
 	return schema, nil
 }
 
+// SortedFileNames returns the names of the files in a fixed order
+func SortedFileNames(schemaFileContents map[string][]byte) []string {
+	fileNames := make([]string, 0, len(schemaFileContents))
+	for fn := range schemaFileContents {
+		fileNames = append(fileNames, fn)
+	}
+	sort.Strings(fileNames)
+	return fileNames
+}
+
 // ReadFiles read file contents from the give filepath
 func ReadFiles(schemaFilePath string) (map[string][]byte, error) {
 	schemaFiles, err := filepath.Glob(schemaFilePath)
-- 
2.43.0


From e02344c710f51b97f656fb89e0b6c5628b72f730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:23 +0000
Subject: [PATCH 11/19] fix: type-caps reports types whose name starts with a

---
 pkg/linter/rules.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/linter/rules.go b/pkg/linter/rules.go
index 56bdc5e..1fd80c4 100644
--- a/pkg/linter/rules.go
+++ b/pkg/linter/rules.go
@@ -299,7 +299,7 @@ func FieldsAreCamelCased(schema *ast.SchemaDocument) LintErrorsWithMetadata {
 func TypesAreCapitalized(schema *ast.SchemaDocument) LintErrorsWithMetadata {
 	errors := make([]LintErrorWithMetadata, 0)
 	for _, typeDefinition := range schema.Definitions {
-		if typeDefinition.Name[0] > 97 && typeDefinition.Name[0] <= 122 {
+		if typeDefinition.Name[0] >= 97 && typeDefinition.Name[0] <= 122 {
 			lintError := LintErrorWithMetadata{
 				Rule:   typeCaps,
 				Line:   typeDefinition.Position.Line,
@@ -311,7 +311,7 @@ func TypesAreCapitalized(schema *ast.SchemaDocument) LintErrorsWithMetadata {
 	}
 	// extended types are not included in schema.definitions but schema.extensions
 	for _, typeDefinition := range schema.Extensions {
-		if typeDefinition.Name[0] > 97 && typeDefinition.Name[0] <= 122 {
+		if typeDefinition.Name[0] >= 97 && typeDefinition.Name[0] <= 122 {
 			lintError := LintErrorWithMetadata{
 				Rule:   typeCaps,
 				Line:   typeDefinition.Position.Line,
-- 
2.43.0


From 4ddd64fd06dc4c3072943fc6abda377355189549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:24 +0000
Subject: [PATCH 12/19] fix: enum-desc looks at every definition itself

---
 pkg/linter/rules.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pkg/linter/rules.go b/pkg/linter/rules.go
index 1fd80c4..c63d72e 100644
--- a/pkg/linter/rules.go
+++ b/pkg/linter/rules.go
@@ -227,8 +227,7 @@ func EnumValuesAreAllCaps(schema *ast.SchemaDocument) LintErrorsWithMetadata {
 // EnumValuesHaveDescriptions checks whether Enum values have description
 func EnumValuesHaveDescriptions(schema *ast.SchemaDocument) LintErrorsWithMetadata {
 	errors := make([]LintErrorWithMetadata, 0)
-	for _, definition := range schema.Definitions {
-		typeDefinition := schema.Definitions.ForName(definition.Name)
+	for _, typeDefinition := range schema.Definitions {
 		if typeDefinition.Kind == ast.Enum {
 			for _, enumValue := range typeDefinition.EnumValues {
 				if len(enumValue.Description) == 0 {
-- 
2.43.0


From 434c7e05b5a131fa4199474e40c415121d83ee89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:26 +0000
Subject: [PATCH 13/19] fix: relay-conn-args checks the fields of extended
 types

---
 pkg/linter/rules.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/linter/rules.go b/pkg/linter/rules.go
index c63d72e..323c4c5 100644
--- a/pkg/linter/rules.go
+++ b/pkg/linter/rules.go
@@ -401,7 +401,9 @@ func RelayConnectionTypesSpec(schema *ast.SchemaDocument) LintErrorsWithMetadata
 func RelayConnectionArgumentsSpec(schema *ast.SchemaDocument) LintErrorsWithMetadata {
 	errors := make([]LintErrorWithMetadata, 0)
 
-	for _, typeDefinition := range schema.Definitions {
+	// extended types are not included in schema.definitions but schema.extensions
+	definitions := append(append(ast.DefinitionList{}, schema.Definitions...), schema.Extensions...)
+	for _, typeDefinition := range definitions {
 		for _, fieldDefinition := range typeDefinition.Fields {
 			var firstArgument, afterArgument, lastArgument, beforeArgument *ast.ArgumentDefinition
 			if strings.HasSuffix(fieldDefinition.Type.Name(), "Connection") {
-- 
2.43.0


From d6c8067d497fe3fb3859bd2578b6bf1af958d13f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:19 +0000
Subject: [PATCH 14/19] fix: a lint comment without a command is ignored, not a
 crash

---
 cmd/linter/inline_lint_config.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cmd/linter/inline_lint_config.go b/cmd/linter/inline_lint_config.go
index 3b5b8bf..16e2ca1 100644
--- a/cmd/linter/inline_lint_config.go
+++ b/cmd/linter/inline_lint_config.go
@@ -50,6 +50,9 @@ func extractInlineLintConfiguration(source *ast.Source) []InlineLintConfig {
 	// Now that we know which lines have lint configs in comments, lets parse them
 	for _, linConfig := range inlineLintConfigs {
 		matchGroups := inlineLintConfigurationRegex.FindStringSubmatch(linConfig.value)
+		if matchGroups == nil {
+			continue
+		}
 		switch matchGroups[1] {
 		case string(lintDisable):
 			rulesString := matchGroups[2]
-- 
2.43.0


From bba2299a8d4a983581ad6ac94988e8b3410651a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:21 +0000
Subject: [PATCH 15/19] fix: lint the files in a fixed order

---
 cmd/linter/lint_cmd.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmd/linter/lint_cmd.go b/cmd/linter/lint_cmd.go
index ae510b2..e2dd72e 100644
--- a/cmd/linter/lint_cmd.go
+++ b/cmd/linter/lint_cmd.go
@@ -63,8 +63,8 @@ func NewLintCmd() *cobra.Command {
 func FindLintErrors(schemaFileContents map[string][]byte, rulesToApply []linter.LintRuleFunc) int {
 	exitStatus := 0
 	errorCount := 0
-	for filename, schemaFileContent := range schemaFileContents {
-		if lintErrors := Lint(filename, string(schemaFileContent), rulesToApply); len(lintErrors) != 0 {
+	for _, filename := range utils.SortedFileNames(schemaFileContents) {
+		if lintErrors := Lint(filename, string(schemaFileContents[filename]), rulesToApply); len(lintErrors) != 0 {
 			errorCount += len(lintErrors)
 			errorPresenter(filename, lintErrors)
 			exitStatus |= 1 // If there's error for any file, exit code should be 1
-- 
2.43.0


From f4d0ceddaf8dbfe993ef6705ffdba0df5e16a75b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:05 +0000
Subject: [PATCH 16/19] fix: close the schema files that are read

---
 utils/util.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/utils/util.go b/utils/util.go
index 93599e0..abb7c15 100644
--- a/utils/util.go
+++ b/utils/util.go
@@ -56,6 +56,7 @@ func ReadFiles(schemaFilePath string) (map[string][]byte, error) {
 			return nil, fmt.Errorf("failed to open file:%s on path:%s, error:%v", filename, schemaFilePath, err)
 		}
 		content, err := io.ReadAll(fileObject)
+		_ = fileObject.Close()
 		if err != nil {
 			return nil, fmt.Errorf("failed to read file:%s on path:%s, error:%v", filename, schemaFilePath, err)
 		}
-- 
2.43.0


From 8ce75b6f1609ec2ef01aef4425e97f4d5956759d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:17 +0000
Subject: [PATCH 17/19] fix: say why a schema file cannot be opened

---
 utils/util.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/util.go b/utils/util.go
index abb7c15..36be280 100644
--- a/utils/util.go
+++ b/utils/util.go
@@ -53,7 +53,7 @@ func ReadFiles(schemaFilePath string) (map[string][]byte, error) {
 	for _, filename := range schemaFiles {
 		fileObject, fileErr := os.Open(filename) // nolint:gosec
 		if fileErr != nil {
-			return nil, fmt.Errorf("failed to open file:%s on path:%s, error:%v", filename, schemaFilePath, err)
+			return nil, fmt.Errorf("failed to open file:%s on path:%s, error:%v", filename, schemaFilePath, fileErr)
 		}
 		content, err := io.ReadAll(fileObject)
 		_ = fileObject.Close()
-- 
2.43.0


From 837a6538efab405872ec75959d454fa043d41faf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:28 +0000
Subject: [PATCH 18/19] fix: a new extension that adds required fields to an
 input type is breaking

---
 pkg/compare/compare.go | 29 ++++++++++++++++++++++++-----
 1 file changed, 24 insertions(+), 5 deletions(-)

diff --git a/pkg/compare/compare.go b/pkg/compare/compare.go
index 56779d6..a412bf0 100644
--- a/pkg/compare/compare.go
+++ b/pkg/compare/compare.go
@@ -316,13 +316,13 @@ func changeInTypes(oldSchema *ast.SchemaDocument, newSchema *ast.SchemaDocument)
 	var persistedTypes []persistedType
 	//Check if types added/removed/persisted
 	changes = append(changes, checkTypeRemoved(oldSchema.Definitions, newSchema.Definitions, &persistedTypes, false)...)
-	changes = append(changes, checkTypeAdded(oldSchema.Definitions, newSchema.Definitions, false)...)
+	changes = append(changes, checkTypeAdded(oldSchema.Definitions, newSchema.Definitions, nil)...)
 
 	//Check if extended types added/removed/persisted
 	oldExtensions := mergeByName(oldSchema.Extensions)
 	newExtensions := mergeByName(newSchema.Extensions)
 	changes = append(changes, checkTypeRemoved(oldExtensions, newExtensions, &persistedTypes, true)...)
-	changes = append(changes, checkTypeAdded(oldExtensions, newExtensions, true)...)
+	changes = append(changes, checkTypeAdded(oldExtensions, newExtensions, oldSchema)...)
 
 	//compare persisted types for changes in fields/directives
 	for _, persisted := range persistedTypes {
@@ -392,19 +392,25 @@ func checkTypeRemoved(oldSchemaDefs ast.DefinitionList, newSchemaDefs ast.Defini
 	return changes
 }
 
-func checkTypeAdded(oldSchemaDefs ast.DefinitionList, newSchemaDefs ast.DefinitionList, isExtended bool) []*Change {
+// checkTypeAdded reports the added types; extendedSchema is the old schema when they are extensions, else nil.
+func checkTypeAdded(oldSchemaDefs ast.DefinitionList, newSchemaDefs ast.DefinitionList, extendedSchema *ast.SchemaDocument) []*Change {
 	var changes []*Change
 	for _, nt := range newSchemaDefs {
 		ot := oldSchemaDefs.ForName(nt.Name)
 		if ot == nil {
+			cl := NonBreaking
 			msg := fmt.Sprintf("Type '%s' was added", nt.Name)
-			if isExtended {
+			if extendedSchema != nil {
 				msg = fmt.Sprintf("Extended type '%s' was added", nt.Name)
+				if addsRequiredField(extendedSchema.Definitions.ForName(nt.Name), nt) {
+					//Extending an existing input object type with a required field will cause existing uses of this input object type to error.
+					cl = Breaking
+				}
 			}
 			//type added to new schema
 			changes = append(changes, &Change{
 				changeType:       TypeAdded,
-				criticalityLevel: NonBreaking,
+				criticalityLevel: cl,
 				message:          msg,
 				path:             nt.Name,
 				position:         nt.Position,
@@ -414,6 +420,19 @@ func checkTypeAdded(oldSchemaDefs ast.DefinitionList, newSchemaDefs ast.Definiti
 	return changes
 }
 
+// addsRequiredField checks if an extension adds a required field to an existing input object type
+func addsRequiredField(oDef *ast.Definition, ext *ast.Definition) bool {
+	if oDef == nil || oDef.Kind != ast.InputObject || ext.Kind != ast.InputObject {
+		return false
+	}
+	for _, field := range ext.Fields {
+		if isRequired(field.Type, field.DefaultValue) && oDef.Fields.ForName(field.Name) == nil {
+			return true
+		}
+	}
+	return false
+}
+
 // changeInDirective change in the directive definitions
 func changeInDirective(oDirs ast.DirectiveDefinitionList, nDirs ast.DirectiveDefinitionList) []*Change {
 	var changes []*Change
-- 
2.43.0


From b9d85012d1dbca11d4644a896f3b1e2ee802dc1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:03:41 +0000
Subject: [PATCH 19/19] fix: run a lint rule once however often it is named

A rule named more than once in --rules was run once per mention, so every
finding was printed and counted that many times.
---
 cmd/linter/lint_cmd.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/cmd/linter/lint_cmd.go b/cmd/linter/lint_cmd.go
index e2dd72e..870d233 100644
--- a/cmd/linter/lint_cmd.go
+++ b/cmd/linter/lint_cmd.go
@@ -87,6 +87,7 @@ func FindTheRulesToApply(rulesString []string) ([]linter.LintRuleFunc, error) {
 		}
 		return rulesToApply, nil
 	}
+	selected := make(map[string]bool)
 	for _, ruleToken := range rulesString {
 		inputRuleName := strings.TrimSpace(ruleToken)
 		// Check whether the rule passed exists in our rule list
@@ -94,7 +95,11 @@ func FindTheRulesToApply(rulesString []string) ([]linter.LintRuleFunc, error) {
 		for _, rule := range linter.AllTheRules {
 			if strings.EqualFold(inputRuleName, string(rule.Name)) {
 				matchFound = true
-				rulesToApply = append(rulesToApply, rule.RuleFunction)
+				// a rule that is named repeatedly still runs once
+				if !selected[string(rule.Name)] {
+					selected[string(rule.Name)] = true
+					rulesToApply = append(rulesToApply, rule.RuleFunction)
+				}
 				break
 			}
 		}
-- 
2.43.0

