From 6e1c907c23cc5d6dbf727e0371aedb3b6e087b1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:27 +0000
Subject: [PATCH 01/80] fix: emit renamed tables and columns of a diff in
 schema order, not map order

---
 format/diff/diff.go      | 12 ++++++++++--
 format/liquibase/diff.go | 12 ++++++++++--
 2 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/format/diff/diff.go b/format/diff/diff.go
index 258bd25..13a13a6 100644
--- a/format/diff/diff.go
+++ b/format/diff/diff.go
@@ -93,7 +93,11 @@ func getDiff(option *Option) (*Result, error) {
 	}
 
 	// renamed tables
-	for newTable, oldTable := range renamedTableMap {
+	for _, newTable := range addedTables {
+		oldTable, ok := renamedTableMap[newTable]
+		if !ok {
+			continue
+		}
 		id.bumpMajor()
 
 		// drop old unique constraint
@@ -224,7 +228,11 @@ func diffTable(
 	}
 
 	// renamed columns
-	for newColumn, oldColumn := range renamedColumnMap {
+	for _, newColumn := range addedColumns {
+		oldColumn, ok := renamedColumnMap[newColumn]
+		if !ok {
+			continue
+		}
 		changeSet := newDiffChangeSet(id.bumpMinor(), author)
 		changeSet.Add(&RenameColumn{Table: table, OldColumn: oldColumn, NewColumn: newColumn})
 		changeSets = append(changeSets, changeSet)
diff --git a/format/liquibase/diff.go b/format/liquibase/diff.go
index 1c6594c..94e5f3e 100644
--- a/format/liquibase/diff.go
+++ b/format/liquibase/diff.go
@@ -111,7 +111,11 @@ func (c *Diff) generate() ([]byte, error) {
 	}
 
 	// renamed tables
-	for newTable, oldTable := range renamedTableMap {
+	for _, newTable := range addedTables {
+		oldTable, ok := renamedTableMap[newTable]
+		if !ok {
+			continue
+		}
 		id.bumpMajor()
 
 		// drop old unique constraint
@@ -241,7 +245,11 @@ func (c *Diff) diffTable(
 	}
 
 	// renamed columns
-	for newColumn, oldColumn := range renamedColumnMap {
+	for _, newColumn := range addedColumns {
+		oldColumn, ok := renamedColumnMap[newColumn]
+		if !ok {
+			continue
+		}
 		changeSet := newLqChangeSet(id.bumpMinor(), author)
 		changeSet.Append("renameColumn", newRenameColumn(table, newColumn, oldColumn))
 		changeSets = append(changeSets, changeSet)
-- 
2.43.0


From aa0ed61ffccc028d65b38fc32a88da20eb4007bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:57 +0000
Subject: [PATCH 02/80] fix: choose and list gorm embedded models in name
 order, not map order

---
 format/gorm/gorm_model.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/format/gorm/gorm_model.go b/format/gorm/gorm_model.go
index 0259bad..fd0ff2b 100644
--- a/format/gorm/gorm_model.go
+++ b/format/gorm/gorm_model.go
@@ -3,6 +3,7 @@ package gorm
 import (
 	"github.com/lechuckroh/octopus-db-tools/util"
 	"regexp"
+	"sort"
 	"strings"
 )
 
@@ -54,6 +55,7 @@ func (m EmbeddedModels) Names() []string {
 	for name, _ := range m {
 		names = append(names, name)
 	}
+	sort.Strings(names)
 	return names
 }
 
@@ -82,7 +84,8 @@ func extractEmbeddedModels(fields []*GoField) EmbeddedModels {
 	}
 
 	result := EmbeddedModels{}
-	for name, model := range embeddedModels {
+	for _, name := range embeddedModels.Names() {
+		model := embeddedModels[name]
 		if columnNameSet.ContainsAll(model.ColumnNames) {
 			result[name] = model
 			columnNameSet.RemoveAll(model.ColumnNames)
-- 
2.43.0


From d6985bb660b36af2587c2be7dfaae042426fb0a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:59 +0000
Subject: [PATCH 03/80] fix: keep a gorm embed definition from leaking into
 later generations

---
 format/gorm/generator.go  | 2 ++
 format/gorm/gorm_model.go | 8 +++++---
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/format/gorm/generator.go b/format/gorm/generator.go
index f83e439..bb90f31 100644
--- a/format/gorm/generator.go
+++ b/format/gorm/generator.go
@@ -62,6 +62,8 @@ func (g *Generator) Generate(wr io.Writer) error {
 	embed := option.Embed
 	if embed != "" {
 		if name, columnNames := parseEmbeddedModelDefinition(embed); columnNames != nil {
+			// the definition applies to this generation only
+			defer func(models EmbeddedModels) { embeddedModels = models }(embeddedModels)
 			registerEmbeddedModel(name, columnNames)
 		}
 	}
diff --git a/format/gorm/gorm_model.go b/format/gorm/gorm_model.go
index fd0ff2b..8125efd 100644
--- a/format/gorm/gorm_model.go
+++ b/format/gorm/gorm_model.go
@@ -62,12 +62,14 @@ func (m EmbeddedModels) Names() []string {
 var embeddedModels EmbeddedModels
 
 func registerEmbeddedModel(name string, columnNames []string) {
-	if embeddedModels == nil {
-		embeddedModels = make(EmbeddedModels)
+	models := make(EmbeddedModels)
+	for k, v := range embeddedModels {
+		models[k] = v
 	}
-	embeddedModels[name] = EmbeddedModel{
+	models[name] = EmbeddedModel{
 		ColumnNames: columnNames,
 	}
+	embeddedModels = models
 }
 
 // registerEmbeddedModel registers default embedded struct definitions
-- 
2.43.0


From c905bbf66548321a893509b051c7b67798657c01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:13 +0000
Subject: [PATCH 04/80] fix: write Kotlin classes without a package into the
 output directory

---
 util/io.go | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/util/io.go b/util/io.go
index 6625fff..18d5e36 100644
--- a/util/io.go
+++ b/util/io.go
@@ -10,9 +10,6 @@ import (
 
 // MkdirPackage creates nested package directories.
 func MkdirPackage(basedir, pkgName string) (string, error) {
-	if pkgName == "" {
-		return "", nil
-	}
 	dir := path.Join(append([]string{basedir}, strings.Split(pkgName, ".")...)...)
 	if err := os.MkdirAll(dir, 0777); err != nil {
 		return "", err
-- 
2.43.0


From cdcaad5b3b168dedbe3b4173652a5afaba0e99ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:15 +0000
Subject: [PATCH 05/80] fix: export the on-update expression to xlsx, not the
 default value

---
 format/xlsx/exporter.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/format/xlsx/exporter.go b/format/xlsx/exporter.go
index 5a82235..c555688 100644
--- a/format/xlsx/exporter.go
+++ b/format/xlsx/exporter.go
@@ -264,7 +264,7 @@ func getColumnAttributes(column *octopus.Column) []string {
 		attrs = append(attrs, attrDefault+"="+column.DefaultValue)
 	}
 	if column.OnUpdate != "" {
-		attrs = append(attrs, attrOnUpdate+"="+column.DefaultValue)
+		attrs = append(attrs, attrOnUpdate+"="+column.OnUpdate)
 	}
 
 	return attrs
-- 
2.43.0


From 3fc853b5dde22b5d7295ece757cd9dece674eb36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:24 +0000
Subject: [PATCH 06/80] fix: import the default value of old-format columns,
 not their description

---
 format/ojson/importer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/format/ojson/importer.go b/format/ojson/importer.go
index a02c5dc..c9d60c1 100644
--- a/format/ojson/importer.go
+++ b/format/ojson/importer.go
@@ -82,7 +82,7 @@ func (c *Importer) fromOjsonColumn(column1 *Column) *octopus.Column {
 		PrimaryKey:      column1.PrimaryKey,
 		UniqueKey:       column1.UniqueKey,
 		AutoIncremental: column1.AutoIncremental,
-		DefaultValue:    column1.Description,
+		DefaultValue:    column1.DefaultValue,
 		Ref:             ref,
 	}
 }
-- 
2.43.0


From 82771baeba96917a85dc176e388b3d61e42f7f28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:27 +0000
Subject: [PATCH 07/80] fix: keep the class name of tables when importing the
 old format

---
 format/ojson/importer.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/format/ojson/importer.go b/format/ojson/importer.go
index c9d60c1..c89aeae 100644
--- a/format/ojson/importer.go
+++ b/format/ojson/importer.go
@@ -61,6 +61,7 @@ func (c *Importer) fromOjsonTable(table1 *Table) *octopus.Table {
 		Columns:     columns,
 		Description: table1.Description,
 		Group:       table1.Group,
+		ClassName:   table1.ClassName,
 	}
 }
 
-- 
2.43.0


From c540550849de415d12b69c7aa0fdc558b4bc8e80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:36 +0000
Subject: [PATCH 08/80] fix: reject a schema file with null tables or columns
 instead of crashing

---
 format/octopus/table.go | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/format/octopus/table.go b/format/octopus/table.go
index 96ce2b5..83429c8 100644
--- a/format/octopus/table.go
+++ b/format/octopus/table.go
@@ -174,7 +174,25 @@ func (s *Schema) FromFile(filename string) error {
 }
 
 func (s *Schema) FromJson(data []byte) error {
-	return json.Unmarshal(data, s)
+	if err := json.Unmarshal(data, s); err != nil {
+		return err
+	}
+	return s.checkEntries()
+}
+
+// checkEntries rejects null tables and columns.
+func (s *Schema) checkEntries() error {
+	for i, table := range s.Tables {
+		if table == nil {
+			return fmt.Errorf("tables[%d] is null", i)
+		}
+		for j, column := range table.Columns {
+			if column == nil {
+				return fmt.Errorf("table: '%s', columns[%d] is null", table.Name, j)
+			}
+		}
+	}
+	return nil
 }
 
 // Normalize converts colume types to lowercase
-- 
2.43.0


From eeaf7bfd205a0bd3c358884a050886f41084c45e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:38 +0000
Subject: [PATCH 09/80] fix: reject an old-format file with null tables or
 columns instead of crashing

---
 format/ojson/table.go | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/format/ojson/table.go b/format/ojson/table.go
index af3bba3..02a65b2 100644
--- a/format/ojson/table.go
+++ b/format/ojson/table.go
@@ -2,6 +2,7 @@ package ojson
 
 import (
 	"encoding/json"
+	"fmt"
 	"github.com/lechuckroh/octopus-db-tools/util"
 	"io/ioutil"
 	"log"
@@ -132,7 +133,25 @@ func (s *Schema) FromFile(filename string) error {
 }
 
 func (s *Schema) FromJson(data []byte) error {
-	return json.Unmarshal(data, s)
+	if err := json.Unmarshal(data, s); err != nil {
+		return err
+	}
+	return s.checkEntries()
+}
+
+// checkEntries rejects null tables and columns.
+func (s *Schema) checkEntries() error {
+	for i, table := range s.Tables {
+		if table == nil {
+			return fmt.Errorf("tables[%d] is null", i)
+		}
+		for j, column := range table.Columns {
+			if column == nil {
+				return fmt.Errorf("table: '%s', columns[%d] is null", table.Name, j)
+			}
+		}
+	}
+	return nil
 }
 
 // Normalize converts colume types to lowercase
-- 
2.43.0


From 31bf3f63cbcf98eefc9693c557ccfa9a686e8aa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:41 +0000
Subject: [PATCH 10/80] fix: report invalid old-format columns as an error
 instead of panicking

---
 format/ojson/importer.go | 4 +++-
 format/ojson/table.go    | 9 ++++++---
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/format/ojson/importer.go b/format/ojson/importer.go
index c89aeae..b115eaa 100644
--- a/format/ojson/importer.go
+++ b/format/ojson/importer.go
@@ -34,7 +34,9 @@ func (c *Importer) ImportJSON(data []byte) (*octopus.Schema, error) {
 	if err := schema1.FromJson(data); err != nil {
 		return nil, err
 	}
-	schema1.Normalize()
+	if err := schema1.Normalize(); err != nil {
+		return nil, err
+	}
 
 	var tables []*octopus.Table
 	for _, table1 := range schema1.Tables {
diff --git a/format/ojson/table.go b/format/ojson/table.go
index 02a65b2..ef7ae43 100644
--- a/format/ojson/table.go
+++ b/format/ojson/table.go
@@ -120,7 +120,9 @@ func (s *Schema) ToFile(filename string) error {
 }
 
 func (s *Schema) ToJson() ([]byte, error) {
-	s.Normalize()
+	if err := s.Normalize(); err != nil {
+		return nil, err
+	}
 	return json.MarshalIndent(s, "", "  ")
 }
 
@@ -155,7 +157,7 @@ func (s *Schema) checkEntries() error {
 }
 
 // Normalize converts colume types to lowercase
-func (s *Schema) Normalize() {
+func (s *Schema) Normalize() error {
 	sort.Sort(TableSlice(s.Tables))
 
 	for _, table := range s.Tables {
@@ -165,7 +167,7 @@ func (s *Schema) Normalize() {
 
 				// validate
 				if err := column.Validate(true); err != nil {
-					log.Panicf("table: %s, %s", table.Name, err.Error())
+					return fmt.Errorf("table: %s, %s", table.Name, err.Error())
 				}
 			} else {
 				log.Printf("unknown column type: '%s', table: %s, column: %s",
@@ -173,6 +175,7 @@ func (s *Schema) Normalize() {
 			}
 		}
 	}
+	return nil
 }
 
 // normalizeColumnType converts column type to octopus generalized column type
-- 
2.43.0


From 93ae7f6f27a8d9543aaad05d58cafc88a694772a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:43 +0000
Subject: [PATCH 11/80] fix: report dangling StarUML references instead of
 crashing

---
 format/staruml/importer.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/format/staruml/importer.go b/format/staruml/importer.go
index d036f72..731784b 100644
--- a/format/staruml/importer.go
+++ b/format/staruml/importer.go
@@ -3,6 +3,7 @@ package staruml
 import (
 	"encoding/json"
 	"errors"
+	"fmt"
 	"github.com/lechuckroh/octopus-db-tools/format/octopus"
 	"github.com/lechuckroh/octopus-db-tools/util"
 	"io/ioutil"
@@ -80,7 +81,13 @@ func (c *Importer) toSchema() (*octopus.Schema, error) {
 
 			if erdColumn.ReferenceTo != nil {
 				targetColumn := c.findById(erdColumn.ReferenceTo.Ref)
+				if targetColumn == nil || targetColumn.Parent == nil {
+					return nil, fmt.Errorf("reference of '%s.%s' not found", erdEntity.Name, erdColumn.Name)
+				}
 				targetTable := c.findById(targetColumn.Parent.Ref)
+				if targetTable == nil {
+					return nil, fmt.Errorf("reference of '%s.%s' not found", erdEntity.Name, erdColumn.Name)
+				}
 				column.Ref = &octopus.Reference{
 					Table:  targetTable.Name,
 					Column: targetColumn.Name,
-- 
2.43.0


From e010ec2587b89c1598bf3763f4b8be028c1d3225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:45 +0000
Subject: [PATCH 12/80] fix: skip null elements of a StarUML file instead of
 crashing

---
 format/staruml/importer.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/format/staruml/importer.go b/format/staruml/importer.go
index 731784b..47ad81a 100644
--- a/format/staruml/importer.go
+++ b/format/staruml/importer.go
@@ -116,7 +116,7 @@ func (c *Importer) findByType(elems []*Element, typ string) []*Element {
 	var result []*Element
 
 	for _, elem := range elems {
-		if elem.ElemType == typ {
+		if elem != nil && elem.ElemType == typ {
 			result = append(result, elem)
 		}
 	}
@@ -136,6 +136,9 @@ func (c *Importer) walkElements(elements []*Element) {
 		return
 	}
 	for _, elem := range elements {
+		if elem == nil {
+			continue
+		}
 		c.walkElement(elem)
 	}
 }
-- 
2.43.0


From 5f1816d3d24acd0e189ea9199e7c32fc838f3f6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:48 +0000
Subject: [PATCH 13/80] fix: report a spreadsheet with a missing sheet instead
 of crashing

---
 format/xlsx/importer.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/format/xlsx/importer.go b/format/xlsx/importer.go
index e2c282f..859b64a 100644
--- a/format/xlsx/importer.go
+++ b/format/xlsx/importer.go
@@ -26,6 +26,9 @@ func (c *Importer) Import(filename string) (*octopus.Schema, error) {
 	c.sheetsByGroup = make(map[string]*xlsx.Sheet)
 
 	for _, sheet := range xlFile.Sheets {
+		if sheet == nil {
+			return nil, fmt.Errorf("'%s' has a sheet without content", filename)
+		}
 		sheetName := sheet.Name
 		if sheetName == xlsxSheetMeta {
 			c.metaSheet = sheet
-- 
2.43.0


From 9cd672005850e7e6f0f46bbac06cd5423876d6ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:05 +0000
Subject: [PATCH 14/80] fix: skip protobuf relations to tables that do not
 exist instead of crashing

---
 format/protobuf/generator.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/format/protobuf/generator.go b/format/protobuf/generator.go
index 52fb0ac..e21b9a5 100644
--- a/format/protobuf/generator.go
+++ b/format/protobuf/generator.go
@@ -188,6 +188,9 @@ func (t *Generator) newPbMessage(table *octopus.Table) *PbMessage {
 		// reference
 		if ref := column.Ref; ref != nil {
 			refTable := t.schema.TableByName(ref.Table)
+			if refTable == nil {
+				continue
+			}
 			refMessageType := t.messageNameMemoizer(refTable)
 			refName := strcase.ToLowerCamel(refMessageType)
 			repeated := ref.Relationship == octopus.RefOneToMany
-- 
2.43.0


From 959615e90055eba1f32a60e92c72b366843850bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:07 +0000
Subject: [PATCH 15/80] fix: report a Kotlin repository without primary key
 instead of crashing

---
 format/jpa/kotlin-gen.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/format/jpa/kotlin-gen.go b/format/jpa/kotlin-gen.go
index 4c2bcc2..de5b783 100644
--- a/format/jpa/kotlin-gen.go
+++ b/format/jpa/kotlin-gen.go
@@ -392,6 +392,8 @@ interface {{.ClassName}}Repository : JpaRepository<{{.ClassName}}, {{.IdClassNam
 	pkFieldCount := len(class.PKFields)
 	if pkFieldCount > 1 {
 		idClassName = class.Name + "PK"
+	} else if pkFieldCount == 0 {
+		return fmt.Errorf("class '%s' has no primary key: cannot generate its repository", class.Name)
 	} else {
 		idClassName = class.PKFields[0].Type
 	}
-- 
2.43.0


From a4e928a4e6144a835dd7d9e7f03ef5f6c42e2392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:07 +0000
Subject: [PATCH 16/80] fix: reject a schema file with null indices instead of
 crashing

---
 format/octopus/table.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/format/octopus/table.go b/format/octopus/table.go
index 83429c8..7ad1214 100644
--- a/format/octopus/table.go
+++ b/format/octopus/table.go
@@ -180,7 +180,7 @@ func (s *Schema) FromJson(data []byte) error {
 	return s.checkEntries()
 }
 
-// checkEntries rejects null tables and columns.
+// checkEntries rejects null tables, columns and indices.
 func (s *Schema) checkEntries() error {
 	for i, table := range s.Tables {
 		if table == nil {
@@ -191,6 +191,11 @@ func (s *Schema) checkEntries() error {
 				return fmt.Errorf("table: '%s', columns[%d] is null", table.Name, j)
 			}
 		}
+		for j, index := range table.Indices {
+			if index == nil {
+				return fmt.Errorf("table: '%s', indices[%d] is null", table.Name, j)
+			}
+		}
 	}
 	return nil
 }
-- 
2.43.0


From c7450adb3829fbab098a03510c5ce84935545de6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:09 +0000
Subject: [PATCH 17/80] fix: report an incomplete spreadsheet archive instead
 of crashing

---
 format/xlsx/importer.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/format/xlsx/importer.go b/format/xlsx/importer.go
index 859b64a..b1b1090 100644
--- a/format/xlsx/importer.go
+++ b/format/xlsx/importer.go
@@ -18,7 +18,7 @@ type Importer struct {
 }
 
 func (c *Importer) Import(filename string) (*octopus.Schema, error) {
-	xlFile, err := xlsx.OpenFile(filename)
+	xlFile, err := openFile(filename)
 	if err != nil {
 		return nil, err
 	}
@@ -39,6 +39,17 @@ func (c *Importer) Import(filename string) (*octopus.Schema, error) {
 	return c.toSchema()
 }
 
+// openFile opens a spreadsheet. The xlsx package panics on archives that lack
+// some of their parts.
+func openFile(filename string) (file *xlsx.File, err error) {
+	defer func() {
+		if r := recover(); r != nil {
+			file, err = nil, fmt.Errorf("'%s' is not a valid xlsx file: %v", filename, r)
+		}
+	}()
+	return xlsx.OpenFile(filename)
+}
+
 func (c *Importer) toSchema() (*octopus.Schema, error) {
 	author := ""
 	name := ""
-- 
2.43.0


From e4c386c851a4b8eee1b5fb93b6a1340904174863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:47 +0000
Subject: [PATCH 18/80] fix: print unhandled default expressions as SQL text,
 not as memory addresses

---
 format/mysql/importer.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/format/mysql/importer.go b/format/mysql/importer.go
index 1f4333d..e2a81e1 100644
--- a/format/mysql/importer.go
+++ b/format/mysql/importer.go
@@ -7,6 +7,7 @@ import (
 	"github.com/lechuckroh/octopus-db-tools/util"
 	"github.com/pingcap/parser"
 	"github.com/pingcap/parser/ast"
+	"github.com/pingcap/parser/format"
 	"github.com/pingcap/parser/mysql"
 	_ "github.com/pingcap/parser/test_driver"
 	"io"
@@ -174,7 +175,7 @@ func (x *TableX) column(
 			case *ast.FuncCallExpr:
 				column.SetDefaultValueFn(colOption.Expr.(*ast.FuncCallExpr).FnName.String())
 			default:
-				fmt.Printf("unhandled default value. column: %s, expr: %v", name, colOption.Expr)
+				fmt.Printf("unhandled default value. column: %s, expr: %s", name, exprString(colOption.Expr))
 			}
 		case ast.ColumnOptionNull:
 			column.NotNull = false
@@ -185,7 +186,7 @@ func (x *TableX) column(
 			case *ast.FuncCallExpr:
 				column.SetOnUpdateFn(colOption.Expr.(*ast.FuncCallExpr).FnName.String())
 			default:
-				fmt.Printf("unhandled default value. column: %s, expr: %v", name, colOption.Expr)
+				fmt.Printf("unhandled default value. column: %s, expr: %s", name, exprString(colOption.Expr))
 			}
 		case ast.ColumnOptionFulltext:
 			break
@@ -211,6 +212,15 @@ func (x *TableX) column(
 	return &column
 }
 
+// exprString returns the SQL text of an expression.
+func exprString(expr ast.ExprNode) string {
+	sb := strings.Builder{}
+	if err := expr.Restore(format.NewRestoreCtx(format.DefaultRestoreFlags, &sb)); err != nil {
+		return err.Error()
+	}
+	return sb.String()
+}
+
 func (x *TableX) columnValues(colType string, colDef *ast.ColumnDef) []string {
 	switch colType {
 	case octopus.ColTypeEnum:
-- 
2.43.0


From fe4a2292fa5ed3bb8fd25bf6fd5c694a2299c240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:49 +0000
Subject: [PATCH 19/80] fix: import negative default values from SQL scripts

---
 format/mysql/importer.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/format/mysql/importer.go b/format/mysql/importer.go
index e2a81e1..c854bb9 100644
--- a/format/mysql/importer.go
+++ b/format/mysql/importer.go
@@ -174,6 +174,8 @@ func (x *TableX) column(
 				column.SetDefaultValue(colOption.Expr.(ast.ValueExpr).GetValue())
 			case *ast.FuncCallExpr:
 				column.SetDefaultValueFn(colOption.Expr.(*ast.FuncCallExpr).FnName.String())
+			case *ast.UnaryOperationExpr:
+				column.SetDefaultValue(exprString(colOption.Expr))
 			default:
 				fmt.Printf("unhandled default value. column: %s, expr: %s", name, exprString(colOption.Expr))
 			}
-- 
2.43.0


From 745d837c209b5e8cc34fc3e51ca892e221f0d95f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:52 +0000
Subject: [PATCH 20/80] fix: import UNIQUE given as a column option from SQL
 scripts

---
 format/mysql/importer.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/format/mysql/importer.go b/format/mysql/importer.go
index c854bb9..f3f2e4e 100644
--- a/format/mysql/importer.go
+++ b/format/mysql/importer.go
@@ -165,6 +165,8 @@ func (x *TableX) column(
 			column.NotNull = true
 		case ast.ColumnOptionNotNull:
 			column.NotNull = true
+		case ast.ColumnOptionUniqKey:
+			column.UniqueKey = true
 		case ast.ColumnOptionAutoIncrement:
 			column.AutoIncremental = true
 			column.NotNull = true
-- 
2.43.0


From 53b988f41bc86d1bdb805390bdea0f02c1cb0be6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:54 +0000
Subject: [PATCH 21/80] fix: skip expression key parts of SQL scripts instead
 of crashing

---
 format/mysql/importer.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/format/mysql/importer.go b/format/mysql/importer.go
index f3f2e4e..17dd886 100644
--- a/format/mysql/importer.go
+++ b/format/mysql/importer.go
@@ -90,6 +90,9 @@ func (x *TableX) Enter(in ast.Node) (ast.Node, bool) {
 			switch cst.Tp {
 			case ast.ConstraintPrimaryKey:
 				for _, key := range cst.Keys {
+					if key.Column == nil {
+						continue
+					}
 					pkSet.Add(key.Column.Name.String())
 				}
 			case ast.ConstraintKey:
@@ -97,12 +100,22 @@ func (x *TableX) Enter(in ast.Node) (ast.Node, bool) {
 			case ast.ConstraintIndex:
 				var idxCols []string
 				for _, key := range cst.Keys {
+					if key.Column == nil {
+						// an expression, not a column
+						continue
+					}
 					idxCols = append(idxCols, key.Column.Name.String())
 				}
+				if len(idxCols) == 0 {
+					break
+				}
 				indices = append(indices, &octopus.Index{Name: cst.Name, Columns: idxCols})
 				break
 			case ast.ConstraintUniq:
 				for _, key := range cst.Keys {
+					if key.Column == nil {
+						continue
+					}
 					uniqSet.Add(key.Column.Name.String())
 				}
 			case ast.ConstraintUniqKey:
-- 
2.43.0


From 8118219fc36762956d2b3963495e96cffd6038c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:57 +0000
Subject: [PATCH 22/80] fix: reject SQL table definitions without columns

---
 format/mysql/importer.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/format/mysql/importer.go b/format/mysql/importer.go
index 17dd886..3a7b5e2 100644
--- a/format/mysql/importer.go
+++ b/format/mysql/importer.go
@@ -61,6 +61,9 @@ func (c *Importer) ImportSql(sql string) (*octopus.Schema, error) {
 	for _, stmtNode := range stmtNodes {
 		stmtNode.Accept(&tableX)
 	}
+	if tableX.err != nil {
+		return nil, tableX.err
+	}
 
 	return &octopus.Schema{
 		Author:  c.option.Author,
@@ -72,6 +75,7 @@ func (c *Importer) ImportSql(sql string) (*octopus.Schema, error) {
 // TableX is TableExtractor
 type TableX struct {
 	tables     []*octopus.Table
+	err        error
 	ExcludeSet *util.StringSet
 }
 
@@ -82,6 +86,14 @@ func (x *TableX) Enter(in ast.Node) (ast.Node, bool) {
 			return in, false
 		}
 
+		// a definition cut off after the table name
+		if len(createTableStmt.Cols) == 0 && createTableStmt.ReferTable == nil && createTableStmt.Select == nil {
+			if x.err == nil {
+				x.err = fmt.Errorf("table '%s' has no columns", tableName)
+			}
+			return in, false
+		}
+
 		// constraints
 		pkSet := util.NewStringSet()
 		uniqSet := util.NewStringSet()
-- 
2.43.0


From b40c69c5346beafd0cef5bb62ad9b91b50542f47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:01 +0000
Subject: [PATCH 23/80] fix: pass uniqueNameSuffix of diff liquibase on

---
 format/diff/cli.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/format/diff/cli.go b/format/diff/cli.go
index 54e7ca0..d9aba94 100644
--- a/format/diff/cli.go
+++ b/format/diff/cli.go
@@ -70,11 +70,12 @@ func LiquibaseAction(c *cli.Context) error {
 
 	return liquibase.NewDiff(
 		&liquibase.DiffOption{
-			Author:      c.String(FlagAuthor),
-			DiffFrom:    fromSchema,
-			DiffTo:      toSchema,
-			TableFilter: octopus.GetTableFilterFn(c.String(FlagGroups)),
-			UseComments: c.Bool(FlagUseComments),
+			Author:           c.String(FlagAuthor),
+			DiffFrom:         fromSchema,
+			DiffTo:           toSchema,
+			TableFilter:      octopus.GetTableFilterFn(c.String(FlagGroups)),
+			UniqueNameSuffix: c.String(FlagUniqueNameSuffix),
+			UseComments:      c.Bool(FlagUseComments),
 		},
 	).Generate(c.String(FlagOutput))
 }
-- 
2.43.0


From 275240fda28de236c596bbfed5a82d0f76fa6a7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:02 +0000
Subject: [PATCH 24/80] fix: drop and add unique constraints in liquibase diffs
 only where there are any

---
 format/liquibase/diff.go | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/format/liquibase/diff.go b/format/liquibase/diff.go
index 94e5f3e..37b2c5b 100644
--- a/format/liquibase/diff.go
+++ b/format/liquibase/diff.go
@@ -230,7 +230,7 @@ func (c *Diff) diffTable(
 	uniqueChanged := !uqSet.Equals(oldUqSet)
 
 	// drop unique constraint
-	if uniqueChanged {
+	if uniqueChanged && oldUqSet.Size() > 0 {
 		uniqueConstraintName := table.Name + uniqueNameSuffix
 		changeSet := newLqChangeSet(id.bumpMinor(), author)
 		changeSet.Append("dropUniqueConstraint", newDropUniqueConstraint(table, uniqueConstraintName))
@@ -297,13 +297,11 @@ func (c *Diff) diffTable(
 	}
 
 	// add unique constraint
-	if uniqueChanged {
+	if uniqueChanged && uqSet.Size() > 0 {
 		uniqueConstraintName := table.Name + uniqueNameSuffix
 		changeSet := newLqChangeSet(id.bumpMinor(), author)
-		if uqSet.Size() > 0 {
-			uniqueColumeNames := uqSet.Join(", ")
-			changeSet.Append("addUniqueConstraint", newAddUniqueConstraint(table, uniqueColumeNames, uniqueConstraintName))
-		}
+		uniqueColumeNames := uqSet.Join(", ")
+		changeSet.Append("addUniqueConstraint", newAddUniqueConstraint(table, uniqueColumeNames, uniqueConstraintName))
 		changeSets = append(changeSets, changeSet)
 	}
 
-- 
2.43.0


From 3a939f100d43608be23623558e0d2c4149b68201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:03 +0000
Subject: [PATCH 25/80] fix: write function defaults of liquibase columns as
 defaultValueComputed

---
 format/liquibase/generator.go | 72 ++++++++++++++++++++---------------
 1 file changed, 42 insertions(+), 30 deletions(-)

diff --git a/format/liquibase/generator.go b/format/liquibase/generator.go
index fd59005..392ec4d 100644
--- a/format/liquibase/generator.go
+++ b/format/liquibase/generator.go
@@ -270,11 +270,16 @@ type LqAddNotNullConstraint struct {
 }
 
 func newAddNotNullConstraint(table *octopus.Table, column *octopus.Column) *LqAddNotNullConstraint {
+	// a function is not a value to replace nulls with
+	defaultNullValue, isFn := column.GetDefaultValue()
+	if isFn {
+		defaultNullValue = ""
+	}
 	return &LqAddNotNullConstraint{
 		TableName:        table.Name,
 		ColumnName:       column.Name,
 		ColumnDataType:   getLiquibaseType(column),
-		DefaultNullValue: column.DefaultValue,
+		DefaultNullValue: defaultNullValue,
 	}
 }
 
@@ -307,13 +312,14 @@ func newAddAutoIncrement(table *octopus.Table, column *octopus.Column) *LqAddAut
 }
 
 type LqAddDefaultValue struct {
-	TableName           string      `yaml:"tableName"`
-	ColumnName          string      `yaml:"columnName"`
-	ColumnDataType      string      `yaml:"columnDataType,omitempty"`
-	DefaultValue        string      `yaml:"defaultValue,omitempty"`
-	DefaultValueBoolean *bool       `yaml:"defaultValueBoolean,omitempty"`
-	DefaultValueNumeric interface{} `yaml:"defaultValueNumeric,omitempty"`
-	DefaultValueDate    string      `yaml:"defaultValueDate,omitempty"`
+	TableName            string      `yaml:"tableName"`
+	ColumnName           string      `yaml:"columnName"`
+	ColumnDataType       string      `yaml:"columnDataType,omitempty"`
+	DefaultValue         string      `yaml:"defaultValue,omitempty"`
+	DefaultValueBoolean  *bool       `yaml:"defaultValueBoolean,omitempty"`
+	DefaultValueNumeric  interface{} `yaml:"defaultValueNumeric,omitempty"`
+	DefaultValueDate     string      `yaml:"defaultValueDate,omitempty"`
+	DefaultValueComputed string      `yaml:"defaultValueComputed,omitempty"`
 }
 
 func newAddDefaultValue(table *octopus.Table, column *octopus.Column) (*LqAddDefaultValue, error) {
@@ -321,13 +327,14 @@ func newAddDefaultValue(table *octopus.Table, column *octopus.Column) (*LqAddDef
 		return nil, err
 	} else {
 		return &LqAddDefaultValue{
-			TableName:           table.Name,
-			ColumnName:          column.Name,
-			ColumnDataType:      getLiquibaseType(column),
-			DefaultValue:        dv.DefaultValue,
-			DefaultValueBoolean: dv.DefaultValueBoolean,
-			DefaultValueNumeric: dv.DefaultValueNumeric,
-			DefaultValueDate:    dv.DefaultValueDate,
+			TableName:            table.Name,
+			ColumnName:           column.Name,
+			ColumnDataType:       getLiquibaseType(column),
+			DefaultValue:         dv.DefaultValue,
+			DefaultValueBoolean:  dv.DefaultValueBoolean,
+			DefaultValueNumeric:  dv.DefaultValueNumeric,
+			DefaultValueDate:     dv.DefaultValueDate,
+			DefaultValueComputed: dv.DefaultValueComputed,
 		}, nil
 	}
 }
@@ -399,16 +406,19 @@ func newDropUniqueConstraint(table *octopus.Table, uniqueConstraintName string)
 // ----------------------------------------------------------------------------
 
 type LqDefaultValue struct {
-	DefaultValue        string      `yaml:"defaultValue,omitempty"`
-	DefaultValueBoolean *bool       `yaml:"defaultValueBoolean,omitempty"`
-	DefaultValueNumeric interface{} `yaml:"defaultValueNumeric,omitempty"`
-	DefaultValueDate    string      `yaml:"defaultValueDate,omitempty"`
+	DefaultValue         string      `yaml:"defaultValue,omitempty"`
+	DefaultValueBoolean  *bool       `yaml:"defaultValueBoolean,omitempty"`
+	DefaultValueNumeric  interface{} `yaml:"defaultValueNumeric,omitempty"`
+	DefaultValueDate     string      `yaml:"defaultValueDate,omitempty"`
+	DefaultValueComputed string      `yaml:"defaultValueComputed,omitempty"`
 }
 
 func newLqDefaultValue(column *octopus.Column) (*LqDefaultValue, error) {
 	result := LqDefaultValue{}
 
-	if util.IsStringType(column.Type) {
+	if fnName, ok := column.GetDefaultValue(); ok {
+		result.DefaultValueComputed = fnName
+	} else if util.IsStringType(column.Type) {
 		result.DefaultValue = column.DefaultValue
 	} else if util.IsBooleanType(column.Type) {
 		result.DefaultValueBoolean = NewBool(column.DefaultValue == "true")
@@ -436,16 +446,17 @@ func newLqDefaultValue(column *octopus.Column) (*LqDefaultValue, error) {
 }
 
 type LqColumn struct {
-	Name                string         `yaml:"name"`
-	Type                string         `yaml:"type"`
-	AutoIncrement       *bool          `yaml:"autoIncrement,omitempty"`
-	Constraints         *LqConstraints `yaml:"constraints,omitempty"`
-	Remarks             string         `yaml:"remarks,omitempty"`
-	DefaultValue        string         `yaml:"defaultValue,omitempty"`
-	DefaultValueBoolean *bool          `yaml:"defaultValueBoolean,omitempty"`
-	DefaultValueNumeric interface{}    `yaml:"defaultValueNumeric,omitempty"`
-	DefaultValueDate    string         `yaml:"defaultValueDate,omitempty"`
-	AfterColumn         string         `yaml:"afterColumn,omitempty"`
+	Name                 string         `yaml:"name"`
+	Type                 string         `yaml:"type"`
+	AutoIncrement        *bool          `yaml:"autoIncrement,omitempty"`
+	Constraints          *LqConstraints `yaml:"constraints,omitempty"`
+	Remarks              string         `yaml:"remarks,omitempty"`
+	DefaultValue         string         `yaml:"defaultValue,omitempty"`
+	DefaultValueBoolean  *bool          `yaml:"defaultValueBoolean,omitempty"`
+	DefaultValueNumeric  interface{}    `yaml:"defaultValueNumeric,omitempty"`
+	DefaultValueDate     string         `yaml:"defaultValueDate,omitempty"`
+	DefaultValueComputed string         `yaml:"defaultValueComputed,omitempty"`
+	AfterColumn          string         `yaml:"afterColumn,omitempty"`
 }
 
 func newLqColumn(column *octopus.Column, createSeparatePK bool, createSeparateUq bool) (*LqColumn, error) {
@@ -487,6 +498,7 @@ func newLqColumn(column *octopus.Column, createSeparatePK bool, createSeparateUq
 			lc.DefaultValueBoolean = dv.DefaultValueBoolean
 			lc.DefaultValueNumeric = dv.DefaultValueNumeric
 			lc.DefaultValueDate = dv.DefaultValueDate
+			lc.DefaultValueComputed = dv.DefaultValueComputed
 		}
 	}
 	return &lc, nil
-- 
2.43.0


From f5eea4cfc372b38a8c4af40cf05e4783d96d48ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:04 +0000
Subject: [PATCH 26/80] fix: keep the boolean default 1 in liquibase change
 logs

---
 format/liquibase/generator.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/format/liquibase/generator.go b/format/liquibase/generator.go
index 392ec4d..cdd2c68 100644
--- a/format/liquibase/generator.go
+++ b/format/liquibase/generator.go
@@ -421,7 +421,7 @@ func newLqDefaultValue(column *octopus.Column) (*LqDefaultValue, error) {
 	} else if util.IsStringType(column.Type) {
 		result.DefaultValue = column.DefaultValue
 	} else if util.IsBooleanType(column.Type) {
-		result.DefaultValueBoolean = NewBool(column.DefaultValue == "true")
+		result.DefaultValueBoolean = NewBool(column.DefaultValue == "true" || column.DefaultValue == "1")
 	} else if util.IsNumericType(column.Type) {
 		if util.IsIntType(column.Type) {
 			if num, err := strconv.Atoi(column.DefaultValue); err != nil {
-- 
2.43.0


From 0ef73e4a6a920a986e30da5b0162490dfecd8872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:56 +0000
Subject: [PATCH 27/80] fix: leave tables of other groups out of filtered diffs

---
 format/diff/diff.go      | 11 ++++++++---
 format/liquibase/diff.go | 11 ++++++++---
 2 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/format/diff/diff.go b/format/diff/diff.go
index 13a13a6..7e57335 100644
--- a/format/diff/diff.go
+++ b/format/diff/diff.go
@@ -35,9 +35,16 @@ func getDiff(option *Option) (*Result, error) {
 	var addedTables []*octopus.Table
 	renamedTableMap := make(map[*octopus.Table]*octopus.Table)
 	removedTableNames := util.NewStringSet()
-	for name := range fromTableByName {
+	for name, table := range fromTableByName {
+		// filter table
+		if option.TableFilter != nil && !option.TableFilter(table) {
+			continue
+		}
 		removedTableNames.Add(name)
 	}
+	for _, table := range option.DiffTo.Tables {
+		removedTableNames.Remove(table.Name)
+	}
 
 	id := newChangeSetID()
 	for _, table := range option.DiffTo.Tables {
@@ -47,8 +54,6 @@ func getDiff(option *Option) (*Result, error) {
 		}
 
 		tableName := table.Name
-		removedTableNames.Remove(tableName)
-
 		oldTable, ok := fromTableByName[tableName]
 		if !ok {
 			// added
diff --git a/format/liquibase/diff.go b/format/liquibase/diff.go
index 37b2c5b..175c75a 100644
--- a/format/liquibase/diff.go
+++ b/format/liquibase/diff.go
@@ -53,9 +53,16 @@ func (c *Diff) generate() ([]byte, error) {
 	var addedTables []*octopus.Table
 	renamedTableMap := make(map[*octopus.Table]*octopus.Table)
 	removedTableNames := util.NewStringSet()
-	for name := range fromTableByName {
+	for name, table := range fromTableByName {
+		// filter table
+		if option.TableFilter != nil && !option.TableFilter(table) {
+			continue
+		}
 		removedTableNames.Add(name)
 	}
+	for _, table := range option.DiffTo.Tables {
+		removedTableNames.Remove(table.Name)
+	}
 
 	id := newLqId()
 	for _, table := range option.DiffTo.Tables {
@@ -65,8 +72,6 @@ func (c *Diff) generate() ([]byte, error) {
 		}
 
 		tableName := table.Name
-		removedTableNames.Remove(tableName)
-
 		oldTable, ok := fromTableByName[tableName]
 		if !ok {
 			// added
-- 
2.43.0


From 120fe9b0674eb16abd817b9645518beb578fad19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:57 +0000
Subject: [PATCH 28/80] fix: report added columns in flyway and markdown diffs

---
 format/diff/diff.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/format/diff/diff.go b/format/diff/diff.go
index 7e57335..6a63b3e 100644
--- a/format/diff/diff.go
+++ b/format/diff/diff.go
@@ -262,6 +262,7 @@ func diffTable(
 				AfterColumn:  nil,
 			})
 		}
+		changeSets = append(changeSets, changeSet)
 	}
 
 	// primary key
-- 
2.43.0


From 909ca10dee8e20b465605fea657355e5bad61b62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:58 +0000
Subject: [PATCH 29/80] fix: keep the new comment of a renamed table in diffs

---
 format/diff/diff.go      | 7 +++++++
 format/liquibase/diff.go | 7 +++++++
 2 files changed, 14 insertions(+)

diff --git a/format/diff/diff.go b/format/diff/diff.go
index 6a63b3e..2b0557f 100644
--- a/format/diff/diff.go
+++ b/format/diff/diff.go
@@ -122,6 +122,13 @@ func getDiff(option *Option) (*Result, error) {
 			result.Add(changeSet)
 		}
 
+		// table comment
+		if useComments && newTable.Description != oldTable.Description {
+			changeSet := newDiffChangeSet(id.bumpMinor(), author)
+			changeSet.Add(&SetTableComment{Table: newTable})
+			result.Add(changeSet)
+		}
+
 		// add new unique constraint
 		newUqSet := newTable.UniqueKeyNameSet()
 		if newUqSet.Size() > 0 {
diff --git a/format/liquibase/diff.go b/format/liquibase/diff.go
index 175c75a..761ac10 100644
--- a/format/liquibase/diff.go
+++ b/format/liquibase/diff.go
@@ -137,6 +137,13 @@ func (c *Diff) generate() ([]byte, error) {
 			result.AddChangeSet(changeSet)
 		}
 
+		// table comment
+		if useComments && newTable.Description != oldTable.Description {
+			changeSet := newLqChangeSet(id.bumpMinor(), author)
+			changeSet.Append("setTableRemarks", newSetTableRemarks(newTable))
+			result.AddChangeSet(changeSet)
+		}
+
 		// add new unique constraint
 		newUqSet := newTable.UniqueKeyNameSet()
 		if newUqSet.Size() > 0 {
-- 
2.43.0


From 9858c23b49777460d09771eec3692beca96a6597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:49 +0000
Subject: [PATCH 30/80] fix: add columns with valid SQL in flyway diffs

---
 format/diff/mysql.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/format/diff/mysql.go b/format/diff/mysql.go
index 120f678..0fabb10 100644
--- a/format/diff/mysql.go
+++ b/format/diff/mysql.go
@@ -118,7 +118,7 @@ func (b *MysqlQueryBuilder) toAddColumnSQL(c *AddColumn) ([]string, error) {
 	columnType := b.mysqlExporter.ToMysqlColumnType(column)
 	colConstraints := b.mysqlExporter.ColumnConstraints(column)
 
-	sql := fmt.Sprintf("ALTER TABLE %s MODIFY ADD %s %s", tableName, column.Name, columnType)
+	sql := fmt.Sprintf("ALTER TABLE %s ADD %s %s", tableName, column.Name, columnType)
 	if colConstraints != "" {
 		sql += " " + colConstraints
 	}
-- 
2.43.0


From 6bfa481a6cd52e4764104ec43365f5a17157cd8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:06 +0000
Subject: [PATCH 31/80] fix: repeat all attributes of columns modified by
 flyway diffs

---
 format/diff/mysql.go | 39 ++++++++++++---------------------------
 1 file changed, 12 insertions(+), 27 deletions(-)

diff --git a/format/diff/mysql.go b/format/diff/mysql.go
index 0fabb10..a3fbbb3 100644
--- a/format/diff/mysql.go
+++ b/format/diff/mysql.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"fmt"
 	"github.com/lechuckroh/octopus-db-tools/format/mysql"
+	"github.com/lechuckroh/octopus-db-tools/format/octopus"
 	"reflect"
 	"strings"
 )
@@ -145,37 +146,21 @@ func (b *MysqlQueryBuilder) toRenameColumnSQL(c *RenameColumn) ([]string, error)
 	return nil, nil
 }
 
-func (b *MysqlQueryBuilder) toSetNotNullConstraintSQL(c *SetNotNullConstraint) ([]string, error) {
-	tableName := c.Table.Name
-	column := c.Column
-	columnType := b.mysqlExporter.ToMysqlColumnType(column)
-
-	var sql string
-	if column.NotNull {
-		sql = fmt.Sprintf("ALTER TABLE %s MODIFY %s %s NOT NULL;", tableName, column.Name, columnType)
-	} else {
-		sql = fmt.Sprintf("ALTER TABLE %s MODIFY %s %s;", tableName, column.Name, columnType)
+// toModifyColumnSQL redefines a column. MODIFY drops every attribute it does not repeat.
+func (b *MysqlQueryBuilder) toModifyColumnSQL(table *octopus.Table, column *octopus.Column) ([]string, error) {
+	sql := fmt.Sprintf("ALTER TABLE %s MODIFY %s %s", table.Name, column.Name, b.mysqlExporter.ToMysqlColumnType(column))
+	if colConstraints := b.mysqlExporter.ColumnConstraints(column); colConstraints != "" {
+		sql += " " + colConstraints
 	}
-	return []string{sql}, nil
+	return []string{sql + ";"}, nil
 }
 
-func (b *MysqlQueryBuilder) toSetAutoIncrementSQL(c *SetAutoIncrement) ([]string, error) {
-	tableName := c.Table.Name
-	column := c.Column
-	columnName := column.Name
-	columnType := b.mysqlExporter.ToMysqlColumnType(column)
+func (b *MysqlQueryBuilder) toSetNotNullConstraintSQL(c *SetNotNullConstraint) ([]string, error) {
+	return b.toModifyColumnSQL(c.Table, c.Column)
+}
 
-	var sql string
-	if c.Column.AutoIncremental {
-		sql = strings.Join([]string{
-			fmt.Sprintf("ALTER TABLE %s MODIFY COLUMN %s %s", tableName, columnName, columnType),
-			b.mysqlExporter.ColumnConstraints(column),
-		}, " ") + ";"
-	} else {
-		sql = fmt.Sprintf("ALTER TABLE %s MODIFY COLUMN %s %s AUTO_INCREMENT PRIMARY KEY;",
-			tableName, columnName, columnType)
-	}
-	return []string{sql}, nil
+func (b *MysqlQueryBuilder) toSetAutoIncrementSQL(c *SetAutoIncrement) ([]string, error) {
+	return b.toModifyColumnSQL(c.Table, c.Column)
 }
 
 func (b *MysqlQueryBuilder) toSetDefaultValueSQL(c *SetDefaultValue) ([]string, error) {
-- 
2.43.0


From 974c62a55d6ebbb2cfab4f92de5d0819b3f035be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:07 +0000
Subject: [PATCH 32/80] fix: drop primary keys in flyway diffs only where there
 are any

---
 format/diff/mysql.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/format/diff/mysql.go b/format/diff/mysql.go
index a3fbbb3..7522ab9 100644
--- a/format/diff/mysql.go
+++ b/format/diff/mysql.go
@@ -87,10 +87,10 @@ func (b *MysqlQueryBuilder) toUpdatePrimaryKeySQL(c *UpdatePrimaryKey) ([]string
 	tableName := table.Name
 	pkColumnNames := table.PrimaryKeyNameSet().Slice()
 
-	result := []string{
-		fmt.Sprintf("ALTER TABLE %s DROP PRIMARY KEY;", tableName),
+	var result []string
+	if c.OldTable.PrimaryKeyNameSet().Size() > 0 {
+		result = append(result, fmt.Sprintf("ALTER TABLE %s DROP PRIMARY KEY;", tableName))
 	}
-
 	if len(pkColumnNames) > 0 {
 		result = append(result,
 			fmt.Sprintf("ALTER TABLE %s ADD PRIMARY KEY (%s);", tableName, strings.Join(pkColumnNames, ",")))
-- 
2.43.0


From 96f3bdae4554fd9ec815de2eff88ef0dc604d0e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:22 +0000
Subject: [PATCH 33/80] fix: import varbinary columns of SQL scripts as
 varbinary

---
 format/mysql/importer.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/format/mysql/importer.go b/format/mysql/importer.go
index 3a7b5e2..437acf3 100644
--- a/format/mysql/importer.go
+++ b/format/mysql/importer.go
@@ -305,6 +305,9 @@ func (x *TableX) columnType(colDef *ast.ColumnDef) (string, uint16, uint16) {
 	case mysql.TypeNewDate:
 		return octopus.ColTypeDate, 0, 0
 	case mysql.TypeVarchar:
+		if colDef.Tp.Flag == mysql.BinaryFlag {
+			return octopus.ColTypeVarbinary, size, 0
+		}
 		return octopus.ColTypeVarchar, size, 0
 	case mysql.TypeBit:
 		if colDef.Tp.Flen == 1 {
-- 
2.43.0


From 681185469b52e1895f0c85be7d23f5bc867c5af9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:23 +0000
Subject: [PATCH 34/80] fix: import the comments of tables from SQL scripts

---
 format/mysql/importer.go | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/format/mysql/importer.go b/format/mysql/importer.go
index 437acf3..ffe0e6d 100644
--- a/format/mysql/importer.go
+++ b/format/mysql/importer.go
@@ -151,9 +151,10 @@ func (x *TableX) Enter(in ast.Node) (ast.Node, bool) {
 		}
 
 		table := &octopus.Table{
-			Name:    tableName,
-			Columns: columns,
-			Indices: indices,
+			Name:        tableName,
+			Columns:     columns,
+			Description: tableComment(createTableStmt),
+			Indices:     indices,
 		}
 		x.tables = append(x.tables, table)
 		return in, true
@@ -161,6 +162,16 @@ func (x *TableX) Enter(in ast.Node) (ast.Node, bool) {
 	return in, false
 }
 
+// tableComment returns the comment of a table.
+func tableComment(stmt *ast.CreateTableStmt) string {
+	for _, option := range stmt.Options {
+		if option.Tp == ast.TableOptionComment {
+			return option.StrValue
+		}
+	}
+	return ""
+}
+
 func (x *TableX) Leave(in ast.Node) (ast.Node, bool) {
 	return in, true
 }
-- 
2.43.0


From d72818304af66251ff5b6e1a34deed472bddddab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:24 +0000
Subject: [PATCH 35/80] fix: export the descriptions of tables to SQL

---
 format/mysql/exporter.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/format/mysql/exporter.go b/format/mysql/exporter.go
index ce395c6..b41ad6c 100644
--- a/format/mysql/exporter.go
+++ b/format/mysql/exporter.go
@@ -13,7 +13,7 @@ const (
 	ExportTemplate = `{{"" -}}
 CREATE TABLE IF NOT EXISTS {{.Name}} (
 {{range .Definitions}}  {{.}}
-{{end}});
+{{end}}){{if .Comment}} COMMENT={{.Comment}}{{end}};
 `
 )
 
@@ -30,6 +30,7 @@ type Exporter struct {
 type exportTplData struct {
 	Name        string
 	Definitions []string
+	Comment     string
 }
 
 func NewExporter(schema *octopus.Schema, option *ExportOption) *Exporter {
@@ -116,10 +117,18 @@ func (c *Exporter) exportTable(
 		Name:        table.Name,
 		Definitions: definitions,
 	}
+	if table.Description != "" {
+		data.Comment = quoteValue(table.Description)
+	}
 
 	return tpl.Execute(wr, data)
 }
 
+// quoteValue returns a SQL string literal.
+func quoteValue(value string) string {
+	return "'" + strings.NewReplacer(`\`, `\\`, "'", "''").Replace(value) + "'"
+}
+
 func (c *Exporter) quote(name string) string {
 	return fmt.Sprintf("`%s`", name)
 }
-- 
2.43.0


From c6088b683019b65d7cc75b20e73c2e9ebe9dfccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:26 +0000
Subject: [PATCH 36/80] fix: escape quotes and backslashes in exported SQL

---
 format/mysql/exporter.go | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/format/mysql/exporter.go b/format/mysql/exporter.go
index b41ad6c..eef5537 100644
--- a/format/mysql/exporter.go
+++ b/format/mysql/exporter.go
@@ -129,6 +129,14 @@ func quoteValue(value string) string {
 	return "'" + strings.NewReplacer(`\`, `\\`, "'", "''").Replace(value) + "'"
 }
 
+func quoteValues(values []string) string {
+	var quoted []string
+	for _, value := range values {
+		quoted = append(quoted, quoteValue(value))
+	}
+	return strings.Join(quoted, ", ")
+}
+
 func (c *Exporter) quote(name string) string {
 	return fmt.Sprintf("`%s`", name)
 }
@@ -171,7 +179,7 @@ func (c *Exporter) ToMysqlColumnType(col *octopus.Column) string {
 	case octopus.ColTypeDouble:
 		return c.formatColumnType("double", col)
 	case octopus.ColTypeEnum:
-		return "enum(" + util.QuoteAndJoin(col.Values, "'", ", ") + ")"
+		return "enum(" + quoteValues(col.Values) + ")"
 	case octopus.ColTypeFloat:
 		return c.formatColumnType("float", col)
 	case octopus.ColTypeGeometry:
@@ -191,7 +199,7 @@ func (c *Exporter) ToMysqlColumnType(col *octopus.Column) string {
 	case octopus.ColTypePoint:
 		return "point"
 	case octopus.ColTypeSet:
-		return "set(" + util.QuoteAndJoin(col.Values, "'", ", ") + ")"
+		return "set(" + quoteValues(col.Values) + ")"
 	case octopus.ColTypeText8:
 		return "tinytext"
 	case octopus.ColTypeText16:
@@ -230,7 +238,7 @@ func (c *Exporter) ColumnConstraints(column *octopus.Column) string {
 			defaultValue = defaultValue + "()"
 		} else {
 			if util.IsStringType(column.Type) {
-				defaultValue = fmt.Sprintf("'%s'", defaultValue)
+				defaultValue = quoteValue(defaultValue)
 			}
 		}
 		constraints = append(constraints, "DEFAULT "+defaultValue)
@@ -242,14 +250,14 @@ func (c *Exporter) ColumnConstraints(column *octopus.Column) string {
 			onUpdate = onUpdate + "()"
 		} else {
 			if util.IsStringType(column.Type) {
-				onUpdate = fmt.Sprintf("'%s'", onUpdate)
+				onUpdate = quoteValue(onUpdate)
 			}
 		}
 		constraints = append(constraints, "ON UPDATE "+onUpdate)
 	}
 
 	if column.Description != "" {
-		constraints = append(constraints, fmt.Sprintf("COMMENT '%s'", column.Description))
+		constraints = append(constraints, "COMMENT "+quoteValue(column.Description))
 	}
 
 	return strings.Join(constraints, " ")
-- 
2.43.0


From 75709041649636f2d45aa4142353a65ea84100d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:27 +0000
Subject: [PATCH 37/80] fix: export the size of binary columns to SQL

---
 format/mysql/exporter.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/format/mysql/exporter.go b/format/mysql/exporter.go
index eef5537..7dcce64 100644
--- a/format/mysql/exporter.go
+++ b/format/mysql/exporter.go
@@ -155,7 +155,7 @@ func (c *Exporter) formatColumnType(colType string, col *octopus.Column) string
 func (c *Exporter) ToMysqlColumnType(col *octopus.Column) string {
 	switch col.Type {
 	case octopus.ColTypeBinary:
-		return "binary"
+		return c.formatColumnType("binary", col)
 	case octopus.ColTypeBit:
 		return c.formatColumnType("bit", col)
 	case octopus.ColTypeBlob8:
@@ -211,7 +211,7 @@ func (c *Exporter) ToMysqlColumnType(col *octopus.Column) string {
 	case octopus.ColTypeTime:
 		return "time"
 	case octopus.ColTypeVarbinary:
-		return "varbinary"
+		return c.formatColumnType("varbinary", col)
 	case octopus.ColTypeVarchar:
 		return c.formatColumnType("varchar", col)
 	case octopus.ColTypeYear:
-- 
2.43.0


From 3a9e93a715f0dd0ccec62fc388c4d38fb28ff842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:28 +0000
Subject: [PATCH 38/80] fix: quote the default values of enum, set, text and
 date columns in exported SQL

---
 format/mysql/exporter.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/format/mysql/exporter.go b/format/mysql/exporter.go
index 7dcce64..49544f3 100644
--- a/format/mysql/exporter.go
+++ b/format/mysql/exporter.go
@@ -221,6 +221,19 @@ func (c *Exporter) ToMysqlColumnType(col *octopus.Column) string {
 	}
 }
 
+// needsQuotes tells whether a default value is written as a string literal.
+func needsQuotes(colType string, value string) bool {
+	switch colType {
+	case octopus.ColTypeDate, octopus.ColTypeDateTime, octopus.ColTypeTime:
+		// not for expressions
+		return value[0] >= '0' && value[0] <= '9'
+	case octopus.ColTypeEnum, octopus.ColTypeSet,
+		octopus.ColTypeText8, octopus.ColTypeText16, octopus.ColTypeText24, octopus.ColTypeText32:
+		return true
+	}
+	return util.IsStringType(colType)
+}
+
 func (c *Exporter) ColumnConstraints(column *octopus.Column) string {
 	var constraints []string
 
@@ -237,7 +250,7 @@ func (c *Exporter) ColumnConstraints(column *octopus.Column) string {
 		if fn {
 			defaultValue = defaultValue + "()"
 		} else {
-			if util.IsStringType(column.Type) {
+			if needsQuotes(column.Type, defaultValue) {
 				defaultValue = quoteValue(defaultValue)
 			}
 		}
-- 
2.43.0


From c25c65bdb2eeb08e3a1b77400324a4634c3d3c2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:29 +0000
Subject: [PATCH 39/80] fix: import bit literals as default values of bit
 columns

---
 format/mysql/importer.go | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/format/mysql/importer.go b/format/mysql/importer.go
index ffe0e6d..29b7f05 100644
--- a/format/mysql/importer.go
+++ b/format/mysql/importer.go
@@ -9,7 +9,7 @@ import (
 	"github.com/pingcap/parser/ast"
 	"github.com/pingcap/parser/format"
 	"github.com/pingcap/parser/mysql"
-	_ "github.com/pingcap/parser/test_driver"
+	"github.com/pingcap/parser/test_driver"
 	"io"
 	"io/ioutil"
 	"strings"
@@ -209,7 +209,7 @@ func (x *TableX) column(
 		case ast.ColumnOptionDefaultValue:
 			switch colOption.Expr.(type) {
 			case ast.ValueExpr:
-				column.SetDefaultValue(colOption.Expr.(ast.ValueExpr).GetValue())
+				column.SetDefaultValue(literalValue(colDef, colOption.Expr.(ast.ValueExpr)))
 			case *ast.FuncCallExpr:
 				column.SetDefaultValueFn(colOption.Expr.(*ast.FuncCallExpr).FnName.String())
 			case *ast.UnaryOperationExpr:
@@ -252,6 +252,19 @@ func (x *TableX) column(
 	return &column
 }
 
+// literalValue returns the value of a literal. Bit literals of bit columns are numbers.
+func literalValue(colDef *ast.ColumnDef, expr ast.ValueExpr) interface{} {
+	value := expr.GetValue()
+	if bits, ok := value.(test_driver.BinaryLiteral); ok && colDef.Tp.Tp == mysql.TypeBit && len(bits) <= 8 {
+		var num uint64
+		for _, b := range bits {
+			num = num<<8 | uint64(b)
+		}
+		return num
+	}
+	return value
+}
+
 // exprString returns the SQL text of an expression.
 func exprString(expr ast.ExprNode) string {
 	sb := strings.Builder{}
-- 
2.43.0


From d4a19a6074b92bbf1ad6bf58216ba56b046127d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:04 +0000
Subject: [PATCH 40/80] fix: import column lengths that are numbers from
 starUML

---
 util/string.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/util/string.go b/util/string.go
index da1bcbd..a8e6033 100644
--- a/util/string.go
+++ b/util/string.go
@@ -18,6 +18,9 @@ func ToInt(value interface{}, defaultValue int) int {
 		return i
 	case int:
 		return value.(int)
+	case float64:
+		// JSON numbers
+		return int(value.(float64))
 	default:
 		return defaultValue
 	}
-- 
2.43.0


From 1909186fdef555bb706e5eca387f1bc810aea9d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:04 +0000
Subject: [PATCH 41/80] fix: parse sizes of types whose names end with digits

---
 util/types.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/util/types.go b/util/types.go
index 18b0ede..f9e6649 100644
--- a/util/types.go
+++ b/util/types.go
@@ -64,7 +64,7 @@ func IsDateType(typ string) bool {
 // ParseType parses column type
 // returns name, size, scale
 func ParseType(str string) (string, uint16, uint16) {
-	r := regexp.MustCompile(`(?m)([a-zA-Z]+)\(([0-9]+)[\s,]*([0-9]*)\)`)
+	r := regexp.MustCompile(`(?m)([a-zA-Z]+[0-9]*)\(([0-9]+)[\s,]*([0-9]*)\)`)
 	groups, _ := MatchRegexGroups(r, str)
 	groupCount := len(groups)
 
-- 
2.43.0


From 8f07f703fa78e29ff310610866942b2969e8df85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:55 +0000
Subject: [PATCH 42/80] fix: import references with relationships from
 spreadsheets

---
 format/xlsx/importer.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/format/xlsx/importer.go b/format/xlsx/importer.go
index b1b1090..ee2f3a8 100644
--- a/format/xlsx/importer.go
+++ b/format/xlsx/importer.go
@@ -218,16 +218,22 @@ func parseReference(s string) *octopus.Reference {
 
 			if table != "" && column != "" {
 				var relationship string
-				switch []rune(table)[0] {
+				switch table[0] {
 				case '>':
 					relationship = octopus.RefManyToOne
+					table = table[1:]
 				case '<':
 					relationship = octopus.RefOneToMany
+					table = table[1:]
 				case '-':
 					relationship = octopus.RefOneToOne
+					table = table[1:]
 				default:
 					relationship = octopus.RefManyToOne
 				}
+				if table == "" {
+					return nil
+				}
 				return &octopus.Reference{
 					Table:        table,
 					Column:       column,
-- 
2.43.0


From 72d2f3ffb4b62a53b402de3144a8d3fbd48c07b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:56 +0000
Subject: [PATCH 43/80] fix: export the relationships of references to
 spreadsheets

---
 format/xlsx/exporter.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/format/xlsx/exporter.go b/format/xlsx/exporter.go
index c555688..28fcbd9 100644
--- a/format/xlsx/exporter.go
+++ b/format/xlsx/exporter.go
@@ -272,6 +272,14 @@ func getColumnAttributes(column *octopus.Column) []string {
 
 func getColumnReference(column *octopus.Column) string {
 	if ref := column.Ref; ref != nil {
+		switch ref.Relationship {
+		case octopus.RefManyToOne:
+			return fmt.Sprintf(">%s.%s", ref.Table, ref.Column)
+		case octopus.RefOneToMany:
+			return fmt.Sprintf("<%s.%s", ref.Table, ref.Column)
+		case octopus.RefOneToOne:
+			return fmt.Sprintf("-%s.%s", ref.Table, ref.Column)
+		}
 		return fmt.Sprintf("%s.%s", ref.Table, ref.Column)
 	}
 	return ""
-- 
2.43.0


From ce11980298755ca8701970252eeda5496e1a1313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:57 +0000
Subject: [PATCH 44/80] fix: import the autoinc attribute of spreadsheets as
 documented

---
 format/xlsx/importer.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/format/xlsx/importer.go b/format/xlsx/importer.go
index ee2f3a8..5636c67 100644
--- a/format/xlsx/importer.go
+++ b/format/xlsx/importer.go
@@ -202,6 +202,8 @@ func parseAttributes(value string) map[string]string {
 		if len(tokens) == 2 {
 			value := tokens[1]
 			result[key] = value
+		} else if strings.EqualFold(key, attrAutoInc) {
+			result[attrAutoInc] = "true"
 		} else {
 			result[key] = "true"
 		}
-- 
2.43.0


From c86c31c7662b12523ca2c9882c7c3623b923475c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:35 +0000
Subject: [PATCH 45/80] fix: export only the tables of the requested groups to
 DBML

---
 format/dbml/exporter.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/format/dbml/exporter.go b/format/dbml/exporter.go
index 454524a..10320ae 100644
--- a/format/dbml/exporter.go
+++ b/format/dbml/exporter.go
@@ -32,7 +32,18 @@ func (c *Exporter) exportToString() ([]byte, error) {
 	var deferredRefs []string
 	definedTables := make(map[string]bool)
 
+	var tables []*octopus.Table
+	exportedTables := make(map[string]bool)
 	for _, table := range c.schema.Tables {
+		// filter table
+		if c.option.TableFilter != nil && !c.option.TableFilter(table) {
+			continue
+		}
+		tables = append(tables, table)
+		exportedTables[table.Name] = true
+	}
+
+	for _, table := range tables {
 		result = append(result, fmt.Sprintf("Table %s {", table.Name))
 
 		for _, column := range table.Columns {
@@ -57,7 +68,7 @@ func (c *Exporter) exportToString() ([]byte, error) {
 				}
 				params = append(params, fmt.Sprintf("default: %s", defaultValue))
 			}
-			if ref := column.Ref; ref != nil {
+			if ref := column.Ref; ref != nil && exportedTables[ref.Table] {
 				rel := getRelationshipType(ref)
 
 				if definedTables[ref.Table] {
-- 
2.43.0


From de4c7bbed973a3caaa5961f603a0e48b2c424d71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:36 +0000
Subject: [PATCH 46/80] fix: escape quotes and backslashes in exported DBML

---
 format/dbml/exporter.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/format/dbml/exporter.go b/format/dbml/exporter.go
index 10320ae..3617e48 100644
--- a/format/dbml/exporter.go
+++ b/format/dbml/exporter.go
@@ -64,7 +64,7 @@ func (c *Exporter) exportToString() ([]byte, error) {
 			if column.DefaultValue != "" {
 				defaultValue := column.DefaultValue
 				if util.IsStringType(column.Type) {
-					defaultValue = fmt.Sprintf("'%s'", defaultValue)
+					defaultValue = quote(defaultValue, "'")
 				}
 				params = append(params, fmt.Sprintf("default: %s", defaultValue))
 			}
@@ -82,7 +82,7 @@ func (c *Exporter) exportToString() ([]byte, error) {
 				}
 			}
 			if column.Description != "" {
-				params = append(params, fmt.Sprintf("note: \"%s\"", column.Description))
+				params = append(params, "note: "+quote(column.Description, "\""))
 			}
 
 			columnType := column.Type
@@ -111,6 +111,11 @@ func (c *Exporter) exportToString() ([]byte, error) {
 	return []byte(strings.Join(result, "\n")), nil
 }
 
+// quote returns a DBML string.
+func quote(text string, quotationMark string) string {
+	return util.Quote(strings.NewReplacer(`\`, `\\`, quotationMark, `\`+quotationMark).Replace(text), quotationMark)
+}
+
 func getRelationshipType(ref *octopus.Reference) string {
 	switch ref.Relationship {
 	case octopus.RefManyToOne:
-- 
2.43.0


From 9151383c4267ccc1f5b5d4b83ea3c4c41a8977d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:22 +0000
Subject: [PATCH 47/80] fix: export default values to DBML as strings and
 expressions where they are no numbers

---
 format/dbml/exporter.go | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/format/dbml/exporter.go b/format/dbml/exporter.go
index 3617e48..b0ea587 100644
--- a/format/dbml/exporter.go
+++ b/format/dbml/exporter.go
@@ -62,11 +62,7 @@ func (c *Exporter) exportToString() ([]byte, error) {
 				params = append(params, "not null")
 			}
 			if column.DefaultValue != "" {
-				defaultValue := column.DefaultValue
-				if util.IsStringType(column.Type) {
-					defaultValue = quote(defaultValue, "'")
-				}
-				params = append(params, fmt.Sprintf("default: %s", defaultValue))
+				params = append(params, fmt.Sprintf("default: %s", getDefaultValue(column)))
 			}
 			if ref := column.Ref; ref != nil && exportedTables[ref.Table] {
 				rel := getRelationshipType(ref)
@@ -111,6 +107,22 @@ func (c *Exporter) exportToString() ([]byte, error) {
 	return []byte(strings.Join(result, "\n")), nil
 }
 
+// getDefaultValue returns the default value of a column as number, string or expression.
+func getDefaultValue(column *octopus.Column) string {
+	value, isFn := column.GetDefaultValue()
+	if isFn {
+		return fmt.Sprintf("`%s()`", value)
+	}
+	if octopus.IsColTypeNumeric(column.Type) || util.IsBooleanType(column.Type) {
+		return value
+	}
+	switch column.Type {
+	case octopus.ColTypeBit, octopus.ColTypeYear:
+		return value
+	}
+	return quote(value, "'")
+}
+
 // quote returns a DBML string.
 func quote(text string, quotationMark string) string {
 	return util.Quote(strings.NewReplacer(`\`, `\\`, quotationMark, `\`+quotationMark).Replace(text), quotationMark)
-- 
2.43.0


From 5bc42c5a1ab86dc0395dcbe316243a71be8d7ab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:25 +0000
Subject: [PATCH 48/80] fix: apply the relation tag options to generated
 protobuf messages

---
 format/protobuf/cli.go       | 13 +++++++++++--
 format/protobuf/generator.go |  6 +++++-
 2 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/format/protobuf/cli.go b/format/protobuf/cli.go
index a5c0da8..74854de 100644
--- a/format/protobuf/cli.go
+++ b/format/protobuf/cli.go
@@ -2,10 +2,12 @@ package protobuf
 
 import (
 	"bytes"
+	"fmt"
 	"github.com/lechuckroh/octopus-db-tools/format/common"
 	"github.com/lechuckroh/octopus-db-tools/format/octopus"
 	"github.com/lechuckroh/octopus-db-tools/util"
 	"github.com/urfave/cli/v2"
+	"strconv"
 	"strings"
 )
 
@@ -27,6 +29,13 @@ func Action(c *cli.Context) error {
 		return err
 	}
 
+	relationTagStart := -1
+	if value := c.String(FlogRelationTagStart); value != "" {
+		if relationTagStart, err = strconv.Atoi(value); err != nil {
+			return fmt.Errorf("invalid %s: '%s'", FlogRelationTagStart, value)
+		}
+	}
+
 	gen := newGenerator(
 		schema,
 		&Option{
@@ -36,8 +45,8 @@ func Action(c *cli.Context) error {
 			Package:          c.String(FlagPackage),
 			GoPackage:        c.String(FlagGoPackage),
 			FilePath:         c.String(FlagOutput),
-			RelationTagStart: -1,
-			RelationTagDecr:  false,
+			RelationTagStart: relationTagStart,
+			RelationTagDecr:  c.Bool(FlogRelationTagDecr),
 		},
 	)
 	buf := new(bytes.Buffer)
diff --git a/format/protobuf/generator.go b/format/protobuf/generator.go
index e21b9a5..62a76fd 100644
--- a/format/protobuf/generator.go
+++ b/format/protobuf/generator.go
@@ -221,7 +221,11 @@ func (t *Generator) newPbMessage(table *octopus.Table) *PbMessage {
 
 	// update tag of relations
 	for i, relation := range relations {
-		relation.Tag = relTagStart + i
+		if relTagDecr {
+			relation.Tag = relTagStart - i
+		} else {
+			relation.Tag = relTagStart + i
+		}
 	}
 
 	return &PbMessage{
-- 
2.43.0


From 2d1bda10a3fdcd26490cb08550170108d84196fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:26 +0000
Subject: [PATCH 49/80] fix: declare one to many relations as repeated in
 protobuf messages

---
 format/protobuf/generator.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/format/protobuf/generator.go b/format/protobuf/generator.go
index 62a76fd..6ad751f 100644
--- a/format/protobuf/generator.go
+++ b/format/protobuf/generator.go
@@ -116,7 +116,7 @@ message {{.Name}} {
   {{.Type}} {{.Name}} = {{.Tag}};
   {{- end}}
   {{- range .Relations}}
-  {{.Type}} {{.Name}} = {{.Tag}};
+  {{if .Repeated}}repeated {{end}}{{.Type}} {{.Name}} = {{.Tag}};
   {{- end}}
 }
 {{end}}`
-- 
2.43.0


From e9c685671df28f04cb1c21bab671e65d46a2ea09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:27 +0000
Subject: [PATCH 50/80] fix: relate protobuf messages to generated messages
 only

---
 format/protobuf/generator.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/format/protobuf/generator.go b/format/protobuf/generator.go
index 6ad751f..c3b21a3 100644
--- a/format/protobuf/generator.go
+++ b/format/protobuf/generator.go
@@ -191,6 +191,10 @@ func (t *Generator) newPbMessage(table *octopus.Table) *PbMessage {
 			if refTable == nil {
 				continue
 			}
+			// messages of other groups are not defined
+			if filter := t.option.TableFilter; filter != nil && !filter(refTable) {
+				continue
+			}
 			refMessageType := t.messageNameMemoizer(refTable)
 			refName := strcase.ToLowerCamel(refMessageType)
 			repeated := ref.Relationship == octopus.RefOneToMany
-- 
2.43.0


From 703eb93aa0b86f1301aba765dfc5b7351bfa8d7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:28 +0000
Subject: [PATCH 51/80] fix: give relations of protobuf messages unique names

---
 format/protobuf/generator.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/format/protobuf/generator.go b/format/protobuf/generator.go
index c3b21a3..98575ab 100644
--- a/format/protobuf/generator.go
+++ b/format/protobuf/generator.go
@@ -208,6 +208,19 @@ func (t *Generator) newPbMessage(table *octopus.Table) *PbMessage {
 		}
 	}
 
+	// names are unique in a message
+	names := util.NewStringSet()
+	for _, field := range fields {
+		names.Add(field.Name)
+	}
+	for _, relation := range relations {
+		name := relation.Name
+		for i := 2; names.Contains(relation.Name); i++ {
+			relation.Name = fmt.Sprintf("%s%d", name, i)
+		}
+		names.Add(relation.Name)
+	}
+
 	// shift tag start if tag range is overlapped
 	relationCount := len(relations)
 	relTagStart := t.option.RelationTagStart
-- 
2.43.0


From 665506451dc25012085d65cd2d9fed45ec26b267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:29 +0000
Subject: [PATCH 52/80] fix: use protobuf types for columns of all types

---
 format/protobuf/generator.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/format/protobuf/generator.go b/format/protobuf/generator.go
index 98575ab..c2c79a4 100644
--- a/format/protobuf/generator.go
+++ b/format/protobuf/generator.go
@@ -292,8 +292,18 @@ func newPbField(tag int, column *octopus.Column) *PbField {
 	case octopus.ColTypeDateTime:
 		fieldType = "google.protobuf.Timestamp"
 		imp = "google/protobuf/timestamp.proto"
+	case octopus.ColTypeBinary, octopus.ColTypeVarbinary,
+		octopus.ColTypeBlob8, octopus.ColTypeBlob16, octopus.ColTypeBlob24, octopus.ColTypeBlob32:
+		fieldType = "bytes"
+	case octopus.ColTypeDate, octopus.ColTypeTime, octopus.ColTypeEnum, octopus.ColTypeSet, octopus.ColTypeJSON:
+		fieldType = "string"
+	case octopus.ColTypeYear:
+		fieldType = "int32"
+	case octopus.ColTypeBit:
+		fieldType = "uint64"
 	default:
-		fieldType = column.Type
+		// column types are no protobuf types
+		fieldType = "string"
 		log.Printf("unsupported columnType: %s", columnType)
 	}
 
-- 
2.43.0


From ecc831b04c210fb22fec68ee4bc50127179f04f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:42 +0000
Subject: [PATCH 53/80] fix: import null.v4 to GORM sources only where it is
 used

---
 format/gorm/gorm.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/format/gorm/gorm.go b/format/gorm/gorm.go
index d66b8c2..3806994 100644
--- a/format/gorm/gorm.go
+++ b/format/gorm/gorm.go
@@ -97,9 +97,6 @@ func NewGoField(column *octopus.Column) *GoField {
 	var fieldType string
 	importSet := util.NewStringSet()
 	nullable := !column.NotNull
-	if nullable {
-		importSet.Add("gopkg.in/guregu/null.v4")
-	}
 
 	columnType := strings.ToLower(column.Type)
 	switch columnType {
@@ -201,6 +198,10 @@ func NewGoField(column *octopus.Column) *GoField {
 		fieldType = "interface{}"
 	}
 
+	if strings.HasPrefix(fieldType, "null.") {
+		importSet.Add("gopkg.in/guregu/null.v4")
+	}
+
 	fieldName, ok := util.ToUpperCamel(column.Name)
 	overrideName := !ok
 
-- 
2.43.0


From 9e24d04b1a1a840ffc1778d98df46be1ba6fcc0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:44 +0000
Subject: [PATCH 54/80] fix: disable embedded GORM models defined without
 columns

---
 format/gorm/gorm_model.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/format/gorm/gorm_model.go b/format/gorm/gorm_model.go
index 8125efd..5b9b718 100644
--- a/format/gorm/gorm_model.go
+++ b/format/gorm/gorm_model.go
@@ -88,6 +88,10 @@ func extractEmbeddedModels(fields []*GoField) EmbeddedModels {
 	result := EmbeddedModels{}
 	for _, name := range embeddedModels.Names() {
 		model := embeddedModels[name]
+		// disabled
+		if len(model.ColumnNames) == 0 {
+			continue
+		}
 		if columnNameSet.ContainsAll(model.ColumnNames) {
 			result[name] = model
 			columnNameSet.RemoveAll(model.ColumnNames)
-- 
2.43.0


From 8cd789b1ae9c214ac85533176c1111243bb1d7c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:45 +0000
Subject: [PATCH 55/80] fix: give the fields of generated GORM structs unique
 names

---
 format/gorm/gorm.go | 28 ++++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/format/gorm/gorm.go b/format/gorm/gorm.go
index 3806994..a99075f 100644
--- a/format/gorm/gorm.go
+++ b/format/gorm/gorm.go
@@ -7,6 +7,9 @@ import (
 	"strings"
 )
 
+// tableNameMethod is the method of generated structs, which fields can't share the name of
+const tableNameMethod = "TableName"
+
 type GoAssocationField struct {
 	Name       string
 	Type       string
@@ -66,6 +69,25 @@ func NewGoStruct(
 	}
 	embeddedModels := extractEmbeddedModels(fields)
 
+	// give associations names which are unique in the struct
+	names := util.NewStringSet()
+	names.Add(tableNameMethod)
+	for _, field := range fields {
+		names.Add(field.Name)
+	}
+	for _, name := range embeddedModels.Names() {
+		names.Add(name[strings.LastIndex(name, ".")+1:])
+	}
+	for _, field := range associationFields {
+		if names.Contains(field.Name) {
+			field.Name = field.Name + "By" + field.ForeignKey
+		}
+		for names.Contains(field.Name) {
+			field.Name = field.Name + "_"
+		}
+		names.Add(field.Name)
+	}
+
 	// exclude embedded fields
 	var finalFields []*GoField
 	for _, field := range fields {
@@ -216,6 +238,12 @@ func NewGoField(column *octopus.Column) *GoField {
 		overrideName = true
 	}
 
+	// method name
+	if fieldName == tableNameMethod {
+		fieldName = fieldName + "_"
+		overrideName = true
+	}
+
 	return &GoField{
 		Column:       column,
 		Name:         fieldName,
-- 
2.43.0


From 17ca84cc7502071db8a4f24f09b8bb5b09d8253a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:46 +0000
Subject: [PATCH 56/80] fix: generate well-formed Kotlin properties for columns
 of all types

---
 format/jpa/kotlin-gen.go | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/format/jpa/kotlin-gen.go b/format/jpa/kotlin-gen.go
index de5b783..8691097 100644
--- a/format/jpa/kotlin-gen.go
+++ b/format/jpa/kotlin-gen.go
@@ -173,15 +173,9 @@ data class {{.Class.Name}}(
     {{- range $annotations}}
         {{. -}}
     {{end}}
-    {{- if .Column.NotNull}}
-		{{- if eq . $.IdEntityField}}
-        override var {{.Name}}: {{.Type}} = {{.DefaultValue}},
-		{{- else}}
-        var {{.Name}}: {{.Type}} = {{.DefaultValue}}{{if hasNext . $.Class.Fields}},{{end}}
-		{{- end}}
-    {{- else}}
-        var {{.Name}}: {{.Type}}{{if hasNext . $.Class.Fields}},{{end}}
-    {{- end}}
+        {{if eq . $.IdEntityField}}override {{end}}var {{.Name}}: {{.Type}}
+    {{- if .DefaultValue}} = {{.DefaultValue}}{{end}}
+    {{- if hasNext . $.Class.Fields}},{{end}}
 {{end}}
 {{- if eq .SuperClass ""}}
 )
@@ -192,7 +186,7 @@ data class {{.Class.Name}}(
 {{- if ne .IdClassName ""}}
 data class {{.IdClassName}}(
 {{- range .Class.PKFields}}
-        var {{.Name}}: {{.Type}} = {{.DefaultValue}}{{if hasNext . $.Class.PKFields}},{{end}}
+        var {{.Name}}: {{.Type}}{{if .DefaultValue}} = {{.DefaultValue}}{{else if not .Column.NotNull}} = null{{end}}{{if hasNext . $.Class.PKFields}},{{end}}
 {{- end}}
 ): Serializable
 {{- end}}
-- 
2.43.0


From e1e1de79fe5fcdea2e77f7ec07fc21c33a2aa3f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:47 +0000
Subject: [PATCH 57/80] fix: name the columns of unique constraints in Kotlin
 entities

---
 format/jpa/kotlin-gen.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/format/jpa/kotlin-gen.go b/format/jpa/kotlin-gen.go
index 8691097..0141f6e 100644
--- a/format/jpa/kotlin-gen.go
+++ b/format/jpa/kotlin-gen.go
@@ -224,7 +224,7 @@ data class {{.IdClassName}}(
 	// unique constraint
 	var uniqueFieldNames []string
 	for _, field := range class.UniqueFields {
-		uniqueFieldNames = append(uniqueFieldNames, util.Quote(field.Name, "\""))
+		uniqueFieldNames = append(uniqueFieldNames, util.Quote(field.Column.Name, "\""))
 	}
 
 	// imports
-- 
2.43.0


From f5d18d3e535748ede60d9b6050d4bd61deea6365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:48 +0000
Subject: [PATCH 58/80] fix: separate the annotations of Kotlin entities

---
 format/jpa/kotlin-gen.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/format/jpa/kotlin-gen.go b/format/jpa/kotlin-gen.go
index 0141f6e..acbdd7b 100644
--- a/format/jpa/kotlin-gen.go
+++ b/format/jpa/kotlin-gen.go
@@ -155,7 +155,7 @@ package {{.Package}}
 {{end}}
 {{range .JavaImports}}import {{.}}
 {{end}}
-{{range .Annotations}}{{.}}{{end}}
+{{join .Annotations "\n"}}
 @Entity
 {{- if .HasUniqueFields}}
 @Table(name="{{.Table.Name}}", uniqueConstraints = [
-- 
2.43.0


From 0ba986b9342b5f5cec1443f069d734e55d59c47a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:49 +0000
Subject: [PATCH 59/80] fix: map Kotlin properties to columns with numbers
 after an underscore

---
 util/string.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/util/string.go b/util/string.go
index a8e6033..d381b9c 100644
--- a/util/string.go
+++ b/util/string.go
@@ -3,6 +3,7 @@ package util
 import (
 	"github.com/iancoleman/strcase"
 	"github.com/xwb1989/sqlparser"
+	"regexp"
 	"strconv"
 	"strings"
 	"text/template"
@@ -85,12 +86,16 @@ func IfThenElseFloat64(condition bool, trueValue, falseValue float64) float64 {
 	}
 }
 
+// snakeNumber matches numbers separated with underscore.
+// The underscore is lost in camelCase: 'name_2' -> 'name2'
+var snakeNumber = regexp.MustCompile(`_\d`)
+
 // ToLowerCamel converts snakeCase to camelCase.
 // returns false if string conversion is insymmetric.
 func ToLowerCamel(s string) (string, bool) {
 	camel := strcase.ToLowerCamel(s)
 	snake := strcase.ToSnake(camel)
-	return camel, s == snake
+	return camel, s == snake && !snakeNumber.MatchString(s)
 }
 
 // ToUpperCamel converts snakeCase to camelCase.
-- 
2.43.0


From be618ec2d5f0ffa660be3292ab3dd59d9e6ce2fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:50 +0000
Subject: [PATCH 60/80] fix: quote keywords in Kotlin entities

---
 format/jpa/kotlin.go | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/format/jpa/kotlin.go b/format/jpa/kotlin.go
index 0558cb6..e4fdd74 100644
--- a/format/jpa/kotlin.go
+++ b/format/jpa/kotlin.go
@@ -164,6 +164,11 @@ func NewKotlinField(column *octopus.Column) *KotlinField {
 
 	fieldName, ok := util.ToLowerCamel(column.Name)
 
+	// check kotlin hard keywords
+	if isKotlinKeyword(fieldName) {
+		fieldName = util.Quote(fieldName, "`")
+	}
+
 	return &KotlinField{
 		Column:       column,
 		Name:         fieldName,
@@ -173,3 +178,14 @@ func NewKotlinField(column *octopus.Column) *KotlinField {
 		Imports:      importSet.Slice(),
 	}
 }
+
+// isKotlinKeyword returns true if 's' is a hard keyword in kotlin.
+func isKotlinKeyword(s string) bool {
+	switch s {
+	case "as", "break", "class", "continue", "do", "else", "false", "for", "fun", "if",
+		"in", "interface", "is", "null", "object", "package", "return", "super", "this",
+		"throw", "true", "try", "typealias", "typeof", "val", "var", "when", "while":
+		return true
+	}
+	return false
+}
-- 
2.43.0


From 3e35d1f8c70e99063897bd68e836746133301332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:51 +0000
Subject: [PATCH 61/80] fix: import and define all names in each generated
 SQLAlchemy file

---
 format/sqlalchemy/generator.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/format/sqlalchemy/generator.go b/format/sqlalchemy/generator.go
index 109da63..9808882 100644
--- a/format/sqlalchemy/generator.go
+++ b/format/sqlalchemy/generator.go
@@ -66,7 +66,6 @@ func (c *Generator) Generate(outputPath string) error {
 
 	// imports from sqlalchemy
 	saImportSet := util.NewStringSet()
-	saImportSet.Add("Column")
 	// imports
 	importSet := util.NewStringSet()
 
@@ -89,6 +88,8 @@ func (c *Generator) Generate(outputPath string) error {
 			uniqueFieldNames = append(uniqueFieldNames, util.Quote(field.Name, "'"))
 		}
 
+		saImportSet.Add("Column")
+
 		// class
 		appendLine("", "",
 			fmt.Sprintf("class %s(Base):", class.Name),
@@ -181,6 +182,9 @@ func (c *Generator) Generate(outputPath string) error {
 			contents = append(contents, classLines...)
 		} else {
 			contents = append(contents, c.getHeaderLines(importSet.Slice(), saImportSet.Slice())...)
+			if useTZDateTime {
+				contents = append(contents, c.getTZDateTimeLines()...)
+			}
 			contents = append(contents, classLines...)
 			contents = append(contents, "")
 
@@ -193,6 +197,7 @@ func (c *Generator) Generate(outputPath string) error {
 			contents = make([]string, 0)
 			saImportSet.Clear()
 			importSet.Clear()
+			useTZDateTime = false
 		}
 	}
 
-- 
2.43.0


From 4a2e6141495e659e4689080d9d9f0cdf77b41902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:52 +0000
Subject: [PATCH 62/80] fix: give no scale to Float of SQLAlchemy

---
 format/sqlalchemy/generator.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/format/sqlalchemy/generator.go b/format/sqlalchemy/generator.go
index 9808882..f7523a2 100644
--- a/format/sqlalchemy/generator.go
+++ b/format/sqlalchemy/generator.go
@@ -121,7 +121,8 @@ func (c *Generator) Generate(outputPath string) error {
 				if column.Size > 0 {
 					colAttrs = append(colAttrs, fmt.Sprintf("precision=%d", column.Size))
 				}
-				if column.Scale > 0 {
+				// Float has no scale
+				if column.Scale > 0 && lcColumnType == octopus.ColTypeDecimal {
 					colAttrs = append(colAttrs, fmt.Sprintf("scale=%d", column.Scale))
 				}
 
-- 
2.43.0


From 901ffaa483ac9643791f62816617b2cb471d7b82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:53 +0000
Subject: [PATCH 63/80] fix: generate well-formed SQLAlchemy columns for
 columns of all types

---
 format/sqlalchemy/generator.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/format/sqlalchemy/generator.go b/format/sqlalchemy/generator.go
index f7523a2..7461ebc 100644
--- a/format/sqlalchemy/generator.go
+++ b/format/sqlalchemy/generator.go
@@ -151,7 +151,7 @@ func (c *Generator) Generate(outputPath string) error {
 					}
 				}
 				importSet.Add("from datetime import datetime")
-			} else {
+			} else if field.Type != "" {
 				attributes = append(attributes, field.Type)
 			}
 			// PK
-- 
2.43.0


From 9db86e3df967440fb03c2575303d788f215d5f97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:54 +0000
Subject: [PATCH 64/80] fix: apply the unique constraints of multiple columns
 in SQLAlchemy classes

---
 format/sqlalchemy/generator.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/format/sqlalchemy/generator.go b/format/sqlalchemy/generator.go
index 7461ebc..ebb8869 100644
--- a/format/sqlalchemy/generator.go
+++ b/format/sqlalchemy/generator.go
@@ -85,7 +85,7 @@ func (c *Generator) Generate(outputPath string) error {
 		uniqueCstName := table.Name + uniqueNameSuffix
 		var uniqueFieldNames []string
 		for _, field := range class.UniqueFields {
-			uniqueFieldNames = append(uniqueFieldNames, util.Quote(field.Name, "'"))
+			uniqueFieldNames = append(uniqueFieldNames, util.Quote(field.Column.Name, "'"))
 		}
 
 		saImportSet.Add("Column")
@@ -97,7 +97,7 @@ func (c *Generator) Generate(outputPath string) error {
 		)
 
 		if len(uniqueFieldNames) > 1 {
-			appendLine(indent + fmt.Sprintf("UniqueConstraint(%s, name='%s')", strings.Join(uniqueFieldNames, ", "), uniqueCstName))
+			appendLine(indent + fmt.Sprintf("__table_args__ = (UniqueConstraint(%s, name='%s'),)", strings.Join(uniqueFieldNames, ", "), uniqueCstName))
 			saImportSet.Add("UniqueConstraint")
 		}
 		appendLine("")
@@ -159,7 +159,7 @@ func (c *Generator) Generate(outputPath string) error {
 				attributes = append(attributes, "primary_key=True")
 			}
 			// Unique
-			if column.UniqueKey {
+			if column.UniqueKey && len(uniqueFieldNames) == 1 {
 				attributes = append(attributes, "unique=True")
 			}
 			// auto_increment
-- 
2.43.0


From 2d7bc29366c5e0240a62fa1de08122d5919982ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:55 +0000
Subject: [PATCH 65/80] fix: keep reserved names out of SQLAlchemy classes

---
 format/sqlalchemy/sqlalchemy.go | 5 +++--
 util/python.go                  | 2 ++
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/format/sqlalchemy/sqlalchemy.go b/format/sqlalchemy/sqlalchemy.go
index 17f7e4a..71ac60c 100644
--- a/format/sqlalchemy/sqlalchemy.go
+++ b/format/sqlalchemy/sqlalchemy.go
@@ -130,8 +130,9 @@ func NewSaField(column *octopus.Column) *SaField {
 
 	fieldName, ok := util.ToLowerSnake(column.Name)
 
-	// check python reserved words
-	reservedWord := util.IsPythonReservedWord(fieldName)
+	// check python reserved words, attributes of declarative base and names used in the class body
+	reservedWord := util.IsPythonReservedWord(fieldName) ||
+		fieldName == "metadata" || fieldName == "registry" || fieldName == "datetime"
 	if reservedWord {
 		fieldName = fieldName + "_"
 	}
diff --git a/util/python.go b/util/python.go
index d3e50b1..6aab77c 100644
--- a/util/python.go
+++ b/util/python.go
@@ -4,6 +4,8 @@ var pythonReservedWords = [...]string{
 	"and",
 	"as",
 	"assert",
+	"async",
+	"await",
 	"break",
 	"class",
 	"continue",
-- 
2.43.0


From 7f546fa70c03756c93834a88d5cbe3228261c490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:45 +0000
Subject: [PATCH 66/80] fix: read useUTC of generate sqlalchemy as the flag it
 is

---
 format/sqlalchemy/cli.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/format/sqlalchemy/cli.go b/format/sqlalchemy/cli.go
index db5ddac..793c188 100644
--- a/format/sqlalchemy/cli.go
+++ b/format/sqlalchemy/cli.go
@@ -75,7 +75,7 @@ var CliFlags = []cli.Flag{
 		Usage:   "set unique constraint name suffix",
 		EnvVars: []string{"OCTOPUS_UNIQUE_NAME_SUFFIX"},
 	},
-	&cli.StringFlag{
+	&cli.BoolFlag{
 		Name:    FlagUseUTC,
 		Aliases: []string{"t"},
 		Usage:   "use UTC for audit column default value",
-- 
2.43.0


From 30ab0103b061e5c7fc16a543edb82ce4ec2a54fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:44 +0000
Subject: [PATCH 67/80] fix: refer to GORM structs by pointer where they would
 hold themselves

---
 format/gorm/generator.go |  2 +-
 format/gorm/gorm.go      | 22 ++++++++++++++++++++++
 2 files changed, 23 insertions(+), 1 deletion(-)

diff --git a/format/gorm/generator.go b/format/gorm/generator.go
index bb90f31..e550e8a 100644
--- a/format/gorm/generator.go
+++ b/format/gorm/generator.go
@@ -269,7 +269,7 @@ func (g *Generator) GenerateStruct(
 		if associationField.Array {
 			fieldType = "[]" + associationField.Type
 		}
-		if g.option.PointerAssociation {
+		if g.option.PointerAssociation || associationField.Recursive {
 			fieldType = "*" + fieldType
 		}
 
diff --git a/format/gorm/gorm.go b/format/gorm/gorm.go
index a99075f..cc517e0 100644
--- a/format/gorm/gorm.go
+++ b/format/gorm/gorm.go
@@ -14,6 +14,7 @@ type GoAssocationField struct {
 	Name       string
 	Type       string
 	Array      bool
+	Recursive  bool
 	ForeignKey string
 	Reference  string
 }
@@ -61,6 +62,7 @@ func NewGoStruct(
 					Name:       refType,
 					Type:       refType,
 					Array:      ref.Relationship == octopus.RefOneToMany,
+					Recursive:  ref.Relationship != octopus.RefOneToMany && refersTo(refTable, table, p, util.NewStringSet()),
 					ForeignKey: field.Name,
 					Reference:  NewGoField(refColumn).Name,
 				})
@@ -107,6 +109,26 @@ func NewGoStruct(
 	}
 }
 
+// refersTo returns true if the struct of a table holds the struct of target.
+// Structs which hold themselves are invalid in Go.
+func refersTo(table, target *octopus.Table, p IProcessor, visited *util.StringSet) bool {
+	if table.Name == target.Name {
+		return true
+	}
+	if visited.Contains(table.Name) {
+		return false
+	}
+	visited.Add(table.Name)
+	for _, column := range table.Columns {
+		if ref := column.Ref; ref != nil && ref.Relationship != octopus.RefOneToMany {
+			if refTable, refColumn := p.Reference(*ref); refTable != nil && refColumn != nil && refersTo(refTable, target, p, visited) {
+				return true
+			}
+		}
+	}
+	return false
+}
+
 type GoField struct {
 	Column       *octopus.Column
 	Name         string
-- 
2.43.0


From 4fc73eeb4969aa6cee182673cb5d577dd6de18fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:43 +0000
Subject: [PATCH 68/80] fix: drop the primary key before its columns in
 liquibase diffs

---
 format/liquibase/diff.go | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/format/liquibase/diff.go b/format/liquibase/diff.go
index 761ac10..d3a5e8c 100644
--- a/format/liquibase/diff.go
+++ b/format/liquibase/diff.go
@@ -249,6 +249,18 @@ func (c *Diff) diffTable(
 		changeSets = append(changeSets, changeSet)
 	}
 
+	// primary key
+	pkSet := table.PrimaryKeyNameSet()
+	oldPkSet := oldTable.PrimaryKeyNameSet()
+	pkChanged := !pkSet.Equals(oldPkSet)
+
+	// drop primary key
+	if pkChanged && oldPkSet.Size() > 0 {
+		changeSet := newLqChangeSet(id.bumpMinor(), author)
+		changeSet.Append("dropPrimaryKey", newDropPrimaryKey(table))
+		changeSets = append(changeSets, changeSet)
+	}
+
 	// removed columns
 	for _, columnName := range removedColumnNameSet.Slice() {
 		changeSet := newLqChangeSet(id.bumpMinor(), author)
@@ -293,18 +305,11 @@ func (c *Diff) diffTable(
 		}
 	}
 
-	// primary key
-	pkSet := table.PrimaryKeyNameSet()
-	oldPkSet := oldTable.PrimaryKeyNameSet()
-	if !pkSet.Equals(oldPkSet) {
+	// add primary key
+	if pkChanged && pkSet.Size() > 0 {
+		pkColumeNames := pkSet.Join(", ")
 		changeSet := newLqChangeSet(id.bumpMinor(), author)
-		if oldPkSet.Size() > 0 {
-			changeSet.Append("dropPrimaryKey", newDropPrimaryKey(table))
-		}
-		if pkSet.Size() > 0 {
-			pkColumeNames := pkSet.Join(", ")
-			changeSet.Append("addPrimaryKey", newAddPrimaryKey(table, pkColumeNames))
-		}
+		changeSet.Append("addPrimaryKey", newAddPrimaryKey(table, pkColumeNames))
 		changeSets = append(changeSets, changeSet)
 	}
 
-- 
2.43.0


From eafe4ddae8f03a26ce6e714bf2bb412e77a3280a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:10 +0000
Subject: [PATCH 69/80] fix: write db.json by default in init, as documented

---
 format/octopus/cli.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/format/octopus/cli.go b/format/octopus/cli.go
index 961cf49..7d8b6ad 100644
--- a/format/octopus/cli.go
+++ b/format/octopus/cli.go
@@ -71,6 +71,7 @@ var InitCliFlags = []cli.Flag{
 		Aliases:     []string{"o"},
 		Usage:       "init octopus schema to `FILE`",
 		EnvVars:     []string{"OCTOPUS_OUTPUT"},
+		Value:       "db.json",
 		DefaultText: "db.json",
 	},
 }
-- 
2.43.0


From 62c3cec28b44e1439464811f02017c4757cc0a42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:24 +0000
Subject: [PATCH 70/80] fix: keep the case of column names in mysql imports and
 match keys ignoring it

Names of columns were imported in lower case, but the columns of keys were
looked up as written: the primary key of a table with camel case columns, or
with another letter case in the key definition, was lost.
---
 format/mysql/importer.go | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/format/mysql/importer.go b/format/mysql/importer.go
index 29b7f05..3788373 100644
--- a/format/mysql/importer.go
+++ b/format/mysql/importer.go
@@ -8,6 +8,7 @@ import (
 	"github.com/pingcap/parser"
 	"github.com/pingcap/parser/ast"
 	"github.com/pingcap/parser/format"
+	"github.com/pingcap/parser/model"
 	"github.com/pingcap/parser/mysql"
 	"github.com/pingcap/parser/test_driver"
 	"io"
@@ -105,7 +106,7 @@ func (x *TableX) Enter(in ast.Node) (ast.Node, bool) {
 					if key.Column == nil {
 						continue
 					}
-					pkSet.Add(key.Column.Name.String())
+					pkSet.Add(key.Column.Name.L)
 				}
 			case ast.ConstraintKey:
 				break
@@ -116,7 +117,7 @@ func (x *TableX) Enter(in ast.Node) (ast.Node, bool) {
 						// an expression, not a column
 						continue
 					}
-					idxCols = append(idxCols, key.Column.Name.String())
+					idxCols = append(idxCols, definedName(createTableStmt.Cols, key.Column.Name))
 				}
 				if len(idxCols) == 0 {
 					break
@@ -128,7 +129,7 @@ func (x *TableX) Enter(in ast.Node) (ast.Node, bool) {
 					if key.Column == nil {
 						continue
 					}
-					uniqSet.Add(key.Column.Name.String())
+					uniqSet.Add(key.Column.Name.L)
 				}
 			case ast.ConstraintUniqKey:
 				break
@@ -162,6 +163,17 @@ func (x *TableX) Enter(in ast.Node) (ast.Node, bool) {
 	return in, false
 }
 
+// definedName returns the name of a column as its definition writes it: MySQL
+// doesn't tell upper from lower case in the names of columns.
+func definedName(cols []*ast.ColumnDef, name model.CIStr) string {
+	for _, col := range cols {
+		if col.Name.Name.L == name.L {
+			return col.Name.Name.O
+		}
+	}
+	return name.O
+}
+
 // tableComment returns the comment of a table.
 func tableComment(stmt *ast.CreateTableStmt) string {
 	for _, option := range stmt.Options {
@@ -181,15 +193,15 @@ func (x *TableX) column(
 	pkSet *util.StringSet,
 	uniqSet *util.StringSet,
 ) *octopus.Column {
-	name := colDef.Name.String()
+	name := colDef.Name.Name.O
 	colType, colLength, colScale := x.columnType(colDef)
 	column := octopus.Column{
 		Name:       name,
 		Type:       colType,
 		Size:       colLength,
 		Scale:      colScale,
-		PrimaryKey: pkSet.Contains(name),
-		UniqueKey:  uniqSet.Contains(name),
+		PrimaryKey: pkSet.Contains(colDef.Name.Name.L),
+		UniqueKey:  uniqSet.Contains(colDef.Name.Name.L),
 		NotNull:    false,
 		Values:     x.columnValues(colType, colDef),
 	}
-- 
2.43.0


From 79892d7c9ada131d92c2b1b76d273b1cfb5cb0a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:35 +0000
Subject: [PATCH 71/80] fix: state the values of enum and set columns in
 liquibase and tell their changes

A change log with the type 'enum' alone is refused by the database, and a
change of the values was no change at all.
---
 format/diff/diff.go           |  2 +-
 format/diff/markdown.go       | 11 ++++++++++-
 format/liquibase/diff.go      |  2 +-
 format/liquibase/generator.go | 13 +++++++++++++
 format/octopus/column.go      | 17 ++++++++++++++---
 5 files changed, 39 insertions(+), 6 deletions(-)

diff --git a/format/diff/diff.go b/format/diff/diff.go
index 2b0557f..07eb200 100644
--- a/format/diff/diff.go
+++ b/format/diff/diff.go
@@ -311,7 +311,7 @@ func diffColumn(
 		changeSets = append(changeSets, changeSet)
 	}
 
-	if column.Type != oldColumn.Type || column.Size != oldColumn.Size || column.Scale != oldColumn.Scale {
+	if !column.EqualsType(oldColumn) {
 		changeSet := newDiffChangeSet(id.bumpMinor(), author)
 		changeSet.Add(&ChangeColumnType{Table: table, OldColumn: oldColumn, NewColumn: column})
 		changeSets = append(changeSets, changeSet)
diff --git a/format/diff/markdown.go b/format/diff/markdown.go
index ebc8aa0..5777fbf 100644
--- a/format/diff/markdown.go
+++ b/format/diff/markdown.go
@@ -2,6 +2,7 @@ package diff
 
 import (
 	"fmt"
+	"github.com/lechuckroh/octopus-db-tools/format/octopus"
 	"github.com/lechuckroh/octopus-db-tools/util"
 	"io"
 	"reflect"
@@ -201,7 +202,15 @@ func (w *MarkdownChangeSetWriter) toSetColumnCommentMD(c *SetColumnComment) (str
 
 func (w *MarkdownChangeSetWriter) toChangeColumnTypeMD(c *ChangeColumnType) (string, error) {
 	return fmt.Sprintf("change column type: `%s` :`%s` → `%s`",
-		c.NewColumn.Name, c.OldColumn.Format(), c.NewColumn.Format()), nil
+		c.NewColumn.Name, w.toColumnTypeMD(c.OldColumn), w.toColumnTypeMD(c.NewColumn)), nil
+}
+
+// toColumnTypeMD returns the type of a column, with its values if it has any.
+func (w *MarkdownChangeSetWriter) toColumnTypeMD(column *octopus.Column) string {
+	if len(column.Values) == 0 {
+		return column.Format()
+	}
+	return fmt.Sprintf("%s(%s)", column.Type, strings.Join(column.Values, ", "))
 }
 
 func (w *MarkdownChangeSetWriter) toRenameColumnMD(c *RenameColumn) (string, error) {
diff --git a/format/liquibase/diff.go b/format/liquibase/diff.go
index d3a5e8c..c21b9bc 100644
--- a/format/liquibase/diff.go
+++ b/format/liquibase/diff.go
@@ -342,7 +342,7 @@ func (c *Diff) diffColumn(
 		changeSets = append(changeSets, changeSet)
 	}
 
-	if column.Type != oldColumn.Type || column.Size != oldColumn.Size || column.Scale != oldColumn.Scale {
+	if !column.EqualsType(oldColumn) {
 		changeSet := newLqChangeSet(id.bumpMinor(), author)
 		changeSet.Append("modifyDataType", newModifyDataType(table, column))
 		changeSets = append(changeSets, changeSet)
diff --git a/format/liquibase/generator.go b/format/liquibase/generator.go
index cdd2c68..3cae8af 100644
--- a/format/liquibase/generator.go
+++ b/format/liquibase/generator.go
@@ -616,6 +616,10 @@ func getLiquibaseType(column *octopus.Column) string {
 		fallthrough
 	case octopus.ColTypeBlob32:
 		typ = "blob"
+	case octopus.ColTypeEnum:
+		return "enum(" + quoteValues(column.Values) + ")"
+	case octopus.ColTypeSet:
+		return "set(" + quoteValues(column.Values) + ")"
 	default:
 		typ = column.Type
 	}
@@ -630,6 +634,15 @@ func getLiquibaseType(column *octopus.Column) string {
 	}
 }
 
+// quoteValues returns comma separated SQL string literals.
+func quoteValues(values []string) string {
+	var quoted []string
+	for _, value := range values {
+		quoted = append(quoted, "'"+strings.NewReplacer(`\`, `\\`, "'", "''").Replace(value)+"'")
+	}
+	return strings.Join(quoted, ", ")
+}
+
 type LqId struct {
 	major int
 	minor int
diff --git a/format/octopus/column.go b/format/octopus/column.go
index 8aae547..6c00a06 100644
--- a/format/octopus/column.go
+++ b/format/octopus/column.go
@@ -84,11 +84,22 @@ func (c *Column) toNormalizedType(colType string) string {
 	return colType
 }
 
+// EqualsType returns whether two columns hold the same type of values.
+func (c *Column) EqualsType(target *Column) bool {
+	if c.Type != target.Type || c.Size != target.Size || c.Scale != target.Scale || len(c.Values) != len(target.Values) {
+		return false
+	}
+	for i, value := range c.Values {
+		if value != target.Values[i] {
+			return false
+		}
+	}
+	return true
+}
+
 func (c *Column) IsRenamed(target *Column, excludeDescription bool) bool {
-	return c.Type == target.Type &&
+	return c.EqualsType(target) &&
 		(excludeDescription || (c.Description == target.Description)) &&
-		c.Size == target.Size &&
-		c.Scale == target.Scale &&
 		c.NotNull == target.NotNull &&
 		c.PrimaryKey == target.PrimaryKey &&
 		c.UniqueKey == target.UniqueKey &&
-- 
2.43.0


From 8e5e8fcfa9065aa99744f6a999c5d385b7c2cbc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:54:23 +0000
Subject: [PATCH 72/80] fix: import the tables of every data model and their
 documentation from StarUML

---
 format/staruml/importer.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/format/staruml/importer.go b/format/staruml/importer.go
index 47ad81a..6c899b0 100644
--- a/format/staruml/importer.go
+++ b/format/staruml/importer.go
@@ -55,7 +55,10 @@ func (c *Importer) toSchema() (*octopus.Schema, error) {
 		return nil, errors.New("ERDDataModel not found")
 	}
 
-	erdEntities := c.findByType(erdDataModels[0].OwnedElements, "ERDEntity")
+	var erdEntities []*Element
+	for _, erdDataModel := range erdDataModels {
+		erdEntities = append(erdEntities, c.findByType(erdDataModel.OwnedElements, "ERDEntity")...)
+	}
 	var tables []*octopus.Table
 	for _, erdEntity := range erdEntities {
 		// Create Columns
@@ -99,8 +102,9 @@ func (c *Importer) toSchema() (*octopus.Schema, error) {
 
 		// Create Table
 		table := &octopus.Table{
-			Name:    erdEntity.Name,
-			Columns: columns,
+			Name:        erdEntity.Name,
+			Columns:     columns,
+			Description: strings.TrimSpace(erdEntity.Documentation),
 		}
 		tables = append(tables, table)
 	}
-- 
2.43.0


From b7daf7f25169d583ef5264402eb99bcd89f160ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:30:01 +0000
Subject: [PATCH 73/80] fix: read boolean default values in liquibase in any
 letter case

---
 format/liquibase/generator.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/format/liquibase/generator.go b/format/liquibase/generator.go
index 3cae8af..e621f1a 100644
--- a/format/liquibase/generator.go
+++ b/format/liquibase/generator.go
@@ -421,7 +421,7 @@ func newLqDefaultValue(column *octopus.Column) (*LqDefaultValue, error) {
 	} else if util.IsStringType(column.Type) {
 		result.DefaultValue = column.DefaultValue
 	} else if util.IsBooleanType(column.Type) {
-		result.DefaultValueBoolean = NewBool(column.DefaultValue == "true" || column.DefaultValue == "1")
+		result.DefaultValueBoolean = NewBool(strings.EqualFold(column.DefaultValue, "true") || column.DefaultValue == "1")
 	} else if util.IsNumericType(column.Type) {
 		if util.IsIntType(column.Type) {
 			if num, err := strconv.Atoi(column.DefaultValue); err != nil {
-- 
2.43.0


From 52e409ad08aaeaa4cc5684bc355faecf65c584d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:35:18 +0000
Subject: [PATCH 74/80] fix: normalize the columns that follow an invalid one

---
 format/octopus/table.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/format/octopus/table.go b/format/octopus/table.go
index 7ad1214..d137b14 100644
--- a/format/octopus/table.go
+++ b/format/octopus/table.go
@@ -204,14 +204,16 @@ func (s *Schema) checkEntries() error {
 func (s *Schema) Normalize() error {
 	sort.Sort(TableSlice(s.Tables))
 
+	// an invalid column does not keep the others from being normalized
+	var result error
 	for _, table := range s.Tables {
 		for _, column := range table.Columns {
 			column.NormalizeType()
 
-			if err := column.Validate(true); err != nil {
-				return fmt.Errorf("table: '%s': %w", table.Name, err)
+			if err := column.Validate(true); err != nil && result == nil {
+				result = fmt.Errorf("table: '%s': %w", table.Name, err)
 			}
 		}
 	}
-	return nil
+	return result
 }
-- 
2.43.0


From 647685b40f92f15a79dc97e4938a3d3aaaf9055b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:36:03 +0000
Subject: [PATCH 75/80] fix: find renamed tables also if their files state
 empty lists of values

---
 format/diff/diff.go      | 3 ++-
 format/liquibase/diff.go | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/format/diff/diff.go b/format/diff/diff.go
index 07eb200..bf947ab 100644
--- a/format/diff/diff.go
+++ b/format/diff/diff.go
@@ -2,6 +2,7 @@ package diff
 
 import (
 	"github.com/google/go-cmp/cmp"
+	"github.com/google/go-cmp/cmp/cmpopts"
 	"github.com/lechuckroh/octopus-db-tools/format/octopus"
 	"github.com/lechuckroh/octopus-db-tools/util"
 )
@@ -78,7 +79,7 @@ func getDiff(option *Option) (*Result, error) {
 	for _, addedTable := range addedTables {
 		for _, removedTableName := range removedTableNames.Slice() {
 			if removedTable := fromTableByName[removedTableName]; removedTable != nil {
-				if diff := cmp.Diff(addedTable.Columns, removedTable.Columns); diff == "" {
+				if diff := cmp.Diff(addedTable.Columns, removedTable.Columns, cmpopts.EquateEmpty()); diff == "" {
 					renamedTableMap[addedTable] = removedTable
 					removedTableNames.Remove(removedTableName)
 					break
diff --git a/format/liquibase/diff.go b/format/liquibase/diff.go
index c21b9bc..1459827 100644
--- a/format/liquibase/diff.go
+++ b/format/liquibase/diff.go
@@ -2,6 +2,7 @@ package liquibase
 
 import (
 	"github.com/google/go-cmp/cmp"
+	"github.com/google/go-cmp/cmp/cmpopts"
 	"github.com/lechuckroh/octopus-db-tools/format/octopus"
 	"github.com/lechuckroh/octopus-db-tools/util"
 	"gopkg.in/yaml.v2"
@@ -96,7 +97,7 @@ func (c *Diff) generate() ([]byte, error) {
 	for _, addedTable := range addedTables {
 		for _, removedTableName := range removedTableNames.Slice() {
 			if removedTable := fromTableByName[removedTableName]; removedTable != nil {
-				if diff := cmp.Diff(addedTable.Columns, removedTable.Columns); diff == "" {
+				if diff := cmp.Diff(addedTable.Columns, removedTable.Columns, cmpopts.EquateEmpty()); diff == "" {
 					renamedTableMap[addedTable] = removedTable
 					removedTableNames.Remove(removedTableName)
 					break
-- 
2.43.0


From f3b78867634bdfcf879f2fc9a4e62dcf88743497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:08:10 +0000
Subject: [PATCH 76/80] fix: reject imported sizes that a schema cannot state
 instead of truncating them

---
 format/mysql/importer.go   | 4 ++++
 format/staruml/importer.go | 7 ++++++-
 util/types.go              | 5 +++++
 3 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/format/mysql/importer.go b/format/mysql/importer.go
index 3788373..e6ebcb7 100644
--- a/format/mysql/importer.go
+++ b/format/mysql/importer.go
@@ -13,6 +13,7 @@ import (
 	"github.com/pingcap/parser/test_driver"
 	"io"
 	"io/ioutil"
+	"math"
 	"strings"
 )
 
@@ -147,6 +148,9 @@ func (x *TableX) Enter(in ast.Node) (ast.Node, bool) {
 		// columns
 		var columns []*octopus.Column
 		for _, colDef := range createTableStmt.Cols {
+			if tp := colDef.Tp; tp.Flen > math.MaxUint16 && (tp.Tp == mysql.TypeVarchar || tp.Tp == mysql.TypeString) && x.err == nil {
+				x.err = fmt.Errorf("table '%s', column '%s': size %d is too large", tableName, colDef.Name.Name.O, tp.Flen)
+			}
 			column := x.column(colDef, pkSet, uniqSet)
 			columns = append(columns, column)
 		}
diff --git a/format/staruml/importer.go b/format/staruml/importer.go
index 6c899b0..667b181 100644
--- a/format/staruml/importer.go
+++ b/format/staruml/importer.go
@@ -7,6 +7,7 @@ import (
 	"github.com/lechuckroh/octopus-db-tools/format/octopus"
 	"github.com/lechuckroh/octopus-db-tools/util"
 	"io/ioutil"
+	"math"
 	"strings"
 )
 
@@ -65,7 +66,11 @@ func (c *Importer) toSchema() (*octopus.Schema, error) {
 		var columns []*octopus.Column
 		for _, erdColumn := range c.findByType(erdEntity.Columns, "ERDColumn") {
 			colType, colSize, colScale := util.ParseType(erdColumn.Type)
-			size := uint16(util.ToInt(erdColumn.Length, 0))
+			length := util.ToInt(erdColumn.Length, 0)
+			if length < 0 || length > math.MaxUint16 {
+				return nil, fmt.Errorf("invalid length of '%s.%s': %d", erdEntity.Name, erdColumn.Name, length)
+			}
+			size := uint16(length)
 			if size == 0 {
 				size = colSize
 			}
diff --git a/util/types.go b/util/types.go
index f9e6649..91c5f44 100644
--- a/util/types.go
+++ b/util/types.go
@@ -1,6 +1,7 @@
 package util
 
 import (
+	"math"
 	"regexp"
 	"strconv"
 	"strings"
@@ -84,5 +85,9 @@ func ParseType(str string) (string, uint16, uint16) {
 		name = str
 	}
 
+	// a size that cannot be stated leaves the type unparsed
+	if size > math.MaxUint16 || scale > math.MaxUint16 {
+		return str, 0, 0
+	}
 	return name, uint16(size), uint16(scale)
 }
-- 
2.43.0


From 105b69c2517acb737ff35802d06a50bdaaae3e86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:21:18 +0000
Subject: [PATCH 77/80] fix: keep all digits of decimal default values in
 liquibase

---
 format/liquibase/generator.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/format/liquibase/generator.go b/format/liquibase/generator.go
index e621f1a..9a1cd04 100644
--- a/format/liquibase/generator.go
+++ b/format/liquibase/generator.go
@@ -7,6 +7,7 @@ import (
 	"gopkg.in/yaml.v2"
 	"io/ioutil"
 	"log"
+	"math/big"
 	"strconv"
 	"strings"
 )
@@ -432,6 +433,8 @@ func newLqDefaultValue(column *octopus.Column) (*LqDefaultValue, error) {
 		} else {
 			if num, err := strconv.ParseFloat(column.DefaultValue, 64); err != nil {
 				return nil, err
+			} else if column.Type == octopus.ColTypeDecimal && !isExact(num, column.DefaultValue) {
+				result.DefaultValueNumeric = column.DefaultValue
 			} else {
 				result.DefaultValueNumeric = &num
 			}
@@ -445,6 +448,16 @@ func newLqDefaultValue(column *octopus.Column) (*LqDefaultValue, error) {
 	return &result, nil
 }
 
+// isExact returns whether a number is written with all the digits of its text.
+func isExact(num float64, text string) bool {
+	written, ok := new(big.Rat).SetString(strconv.FormatFloat(num, 'g', -1, 64))
+	if !ok {
+		return false
+	}
+	exact, ok := new(big.Rat).SetString(text)
+	return ok && written.Cmp(exact) == 0
+}
+
 type LqColumn struct {
 	Name                 string         `yaml:"name"`
 	Type                 string         `yaml:"type"`
-- 
2.43.0


From 8fbd908a951b4decb787801ede06474ccaec887a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:37:19 +0000
Subject: [PATCH 78/80] fix: reject tables that would be generated as the same
 class

---
 format/common/names.go         | 21 +++++++++++++++++++++
 format/gorm/generator.go       |  4 ++++
 format/graphql/generator.go    | 12 ++++++++++--
 format/jpa/kotlin-gen.go       |  8 ++++++++
 format/protobuf/generator.go   |  7 ++++++-
 format/sqlalchemy/generator.go |  9 ++++++++-
 6 files changed, 57 insertions(+), 4 deletions(-)
 create mode 100644 format/common/names.go

diff --git a/format/common/names.go b/format/common/names.go
new file mode 100644
index 0000000..e01eae9
--- /dev/null
+++ b/format/common/names.go
@@ -0,0 +1,21 @@
+package common
+
+import "fmt"
+
+// NameSet is the set of the names that are generated into the same scope.
+type NameSet map[string]string
+
+// Add adds a name that is generated for the given origin.
+// It returns an error if the name is already taken by another origin.
+func (s NameSet) Add(name string, origin string) error {
+	if other, ok := s[name]; ok {
+		return fmt.Errorf("%s and %s have the same name '%s'", other, origin, name)
+	}
+	s[name] = origin
+	return nil
+}
+
+// AddTable adds a class name that is generated for a table.
+func (s NameSet) AddTable(name string, tableName string) error {
+	return s.Add(name, fmt.Sprintf("table '%s'", tableName))
+}
diff --git a/format/gorm/generator.go b/format/gorm/generator.go
index e550e8a..cc91195 100644
--- a/format/gorm/generator.go
+++ b/format/gorm/generator.go
@@ -73,11 +73,15 @@ func (g *Generator) Generate(wr io.Writer) error {
 	}
 
 	var goStructs []*GoStruct
+	structNames := common.NameSet{}
 	tableFilter := option.TableFilter
 	p := GoStructProcessor{schema: g.schema, option: option}
 	for _, table := range g.schema.Tables {
 		if tableFilter == nil || tableFilter(table) {
 			goStruct := NewGoStruct(table, &p)
+			if err := structNames.AddTable(goStruct.Name, table.Name); err != nil {
+				return err
+			}
 			goStructs = append(goStructs, goStruct)
 		}
 	}
diff --git a/format/graphql/generator.go b/format/graphql/generator.go
index b286b34..7bcbe9c 100644
--- a/format/graphql/generator.go
+++ b/format/graphql/generator.go
@@ -148,6 +148,8 @@ func (c *Generator) Generate(outputPath string) error {
 `)
 
 	var classes []*Class
+	typeNames := common.NameSet{"Query": "the root type"}
+	queryNames := common.NameSet{}
 
 	client := pluralize.NewClient()
 
@@ -161,8 +163,14 @@ func (c *Generator) Generate(outputPath string) error {
 		class := NewClass(table, c.option)
 		classes = append(classes, class)
 
-		lowerClassName := strcase.ToLowerCamel(class.Name)
-		appendLine(1, fmt.Sprintf("%s: [%s]", client.Plural(lowerClassName), class.Name))
+		queryName := client.Plural(strcase.ToLowerCamel(class.Name))
+		if err := typeNames.AddTable(class.Name, table.Name); err != nil {
+			return err
+		}
+		if err := queryNames.AddTable(queryName, table.Name); err != nil {
+			return err
+		}
+		appendLine(1, fmt.Sprintf("%s: [%s]", queryName, class.Name))
 	}
 	appendLine(0, "}")
 	appendLine(0, "")
diff --git a/format/jpa/kotlin-gen.go b/format/jpa/kotlin-gen.go
index acbdd7b..6a7f8e6 100644
--- a/format/jpa/kotlin-gen.go
+++ b/format/jpa/kotlin-gen.go
@@ -284,6 +284,14 @@ func (c *KtGenerator) getClassNameByTableName(tableName string) string {
 }
 
 func (c *KtGenerator) Generate(outputPath string) error {
+	// every class is written to a file of its own
+	classNames := common.NameSet{}
+	for _, class := range c.classes {
+		if err := classNames.AddTable(class.Name, class.table.Name); err != nil {
+			return err
+		}
+	}
+
 	if err := c.generateEntities(outputPath); err != nil {
 		return err
 	}
diff --git a/format/protobuf/generator.go b/format/protobuf/generator.go
index c2c79a4..2758834 100644
--- a/format/protobuf/generator.go
+++ b/format/protobuf/generator.go
@@ -80,11 +80,16 @@ func (t *Generator) Generate(wr io.Writer) error {
 	goPkg := option.GoPackage
 
 	var pbMessages []*PbMessage
+	messageNames := common.NameSet{}
 	for _, table := range t.schema.Tables {
 		if option.TableFilter != nil && !option.TableFilter(table) {
 			continue
 		}
-		pbMessages = append(pbMessages, t.newPbMessage(table))
+		pbMessage := t.newPbMessage(table)
+		if err := messageNames.AddTable(pbMessage.Name, table.Name); err != nil {
+			return err
+		}
+		pbMessages = append(pbMessages, pbMessage)
 	}
 
 	return t.generateProto(wr, pbMessages, pkg, goPkg)
diff --git a/format/sqlalchemy/generator.go b/format/sqlalchemy/generator.go
index ebb8869..9d3afe4 100644
--- a/format/sqlalchemy/generator.go
+++ b/format/sqlalchemy/generator.go
@@ -56,12 +56,19 @@ func (c *Generator) Generate(outputPath string) error {
 	indent := strings.Repeat(" ", 4)
 
 	var classes []*SaClass
+	classNames := common.NameSet{}
 	for _, table := range c.schema.Tables {
 		// filter table
 		if option.TableFilter != nil && !option.TableFilter(table) {
 			continue
 		}
-		classes = append(classes, NewSaClass(table, option))
+		class := NewSaClass(table, option)
+		if generateSingleFile {
+			if err := classNames.AddTable(class.Name, table.Name); err != nil {
+				return err
+			}
+		}
+		classes = append(classes, class)
 	}
 
 	// imports from sqlalchemy
-- 
2.43.0


From 8a575309f8c07d40277673de4decd70da8117d2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:51:48 +0000
Subject: [PATCH 79/80] fix: reject columns that would be generated as the same
 field

---
 format/common/names.go         | 5 +++++
 format/gorm/generator.go       | 6 ++++++
 format/graphql/generator.go    | 6 ++++++
 format/jpa/kotlin-gen.go       | 6 ++++++
 format/protobuf/generator.go   | 6 ++++++
 format/sqlalchemy/generator.go | 6 ++++++
 6 files changed, 35 insertions(+)

diff --git a/format/common/names.go b/format/common/names.go
index e01eae9..32c6c56 100644
--- a/format/common/names.go
+++ b/format/common/names.go
@@ -19,3 +19,8 @@ func (s NameSet) Add(name string, origin string) error {
 func (s NameSet) AddTable(name string, tableName string) error {
 	return s.Add(name, fmt.Sprintf("table '%s'", tableName))
 }
+
+// AddColumn adds a field name that is generated for a column of a table.
+func (s NameSet) AddColumn(name string, tableName string, columnName string) error {
+	return s.Add(name, fmt.Sprintf("column '%s.%s'", tableName, columnName))
+}
diff --git a/format/gorm/generator.go b/format/gorm/generator.go
index cc91195..cdfa604 100644
--- a/format/gorm/generator.go
+++ b/format/gorm/generator.go
@@ -82,6 +82,12 @@ func (g *Generator) Generate(wr io.Writer) error {
 			if err := structNames.AddTable(goStruct.Name, table.Name); err != nil {
 				return err
 			}
+			fieldNames := common.NameSet{}
+			for _, field := range goStruct.Fields {
+				if err := fieldNames.AddColumn(field.Name, table.Name, field.Column.Name); err != nil {
+					return err
+				}
+			}
 			goStructs = append(goStructs, goStruct)
 		}
 	}
diff --git a/format/graphql/generator.go b/format/graphql/generator.go
index 7bcbe9c..bc95dec 100644
--- a/format/graphql/generator.go
+++ b/format/graphql/generator.go
@@ -164,6 +164,12 @@ func (c *Generator) Generate(outputPath string) error {
 		classes = append(classes, class)
 
 		queryName := client.Plural(strcase.ToLowerCamel(class.Name))
+		fieldNames := common.NameSet{}
+		for i, column := range table.Columns {
+			if err := fieldNames.AddColumn(class.Fields[i].Name, table.Name, column.Name); err != nil {
+				return err
+			}
+		}
 		if err := typeNames.AddTable(class.Name, table.Name); err != nil {
 			return err
 		}
diff --git a/format/jpa/kotlin-gen.go b/format/jpa/kotlin-gen.go
index 6a7f8e6..1743479 100644
--- a/format/jpa/kotlin-gen.go
+++ b/format/jpa/kotlin-gen.go
@@ -290,6 +290,12 @@ func (c *KtGenerator) Generate(outputPath string) error {
 		if err := classNames.AddTable(class.Name, class.table.Name); err != nil {
 			return err
 		}
+		fieldNames := common.NameSet{}
+		for _, field := range class.Fields {
+			if err := fieldNames.AddColumn(field.Name, class.table.Name, field.Column.Name); err != nil {
+				return err
+			}
+		}
 	}
 
 	if err := c.generateEntities(outputPath); err != nil {
diff --git a/format/protobuf/generator.go b/format/protobuf/generator.go
index 2758834..7ee4867 100644
--- a/format/protobuf/generator.go
+++ b/format/protobuf/generator.go
@@ -89,6 +89,12 @@ func (t *Generator) Generate(wr io.Writer) error {
 		if err := messageNames.AddTable(pbMessage.Name, table.Name); err != nil {
 			return err
 		}
+		fieldNames := common.NameSet{}
+		for i, column := range table.Columns {
+			if err := fieldNames.AddColumn(pbMessage.Fields[i].Name, table.Name, column.Name); err != nil {
+				return err
+			}
+		}
 		pbMessages = append(pbMessages, pbMessage)
 	}
 
diff --git a/format/sqlalchemy/generator.go b/format/sqlalchemy/generator.go
index 9d3afe4..3f92aac 100644
--- a/format/sqlalchemy/generator.go
+++ b/format/sqlalchemy/generator.go
@@ -68,6 +68,12 @@ func (c *Generator) Generate(outputPath string) error {
 				return err
 			}
 		}
+		fieldNames := common.NameSet{}
+		for _, field := range class.Fields {
+			if err := fieldNames.AddColumn(field.Name, table.Name, field.Column.Name); err != nil {
+				return err
+			}
+		}
 		classes = append(classes, class)
 	}
 
-- 
2.43.0


From 28dc3737ef50d0063ea4573691a6eb458e04ba79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:55:01 +0000
Subject: [PATCH 80/80] fix: do not write outside the output directory for
 names that are paths

---
 format/graphql/generator.go    | 9 +++++++--
 format/jpa/kotlin-gen.go       | 3 +++
 format/sqlalchemy/generator.go | 2 ++
 util/io.go                     | 9 +++++++++
 4 files changed, 21 insertions(+), 2 deletions(-)

diff --git a/format/graphql/generator.go b/format/graphql/generator.go
index bc95dec..de5274e 100644
--- a/format/graphql/generator.go
+++ b/format/graphql/generator.go
@@ -6,6 +6,7 @@ import (
 	"github.com/iancoleman/strcase"
 	"github.com/lechuckroh/octopus-db-tools/format/common"
 	"github.com/lechuckroh/octopus-db-tools/format/octopus"
+	"github.com/lechuckroh/octopus-db-tools/util"
 	"io/ioutil"
 	"log"
 	"os"
@@ -128,6 +129,11 @@ func NewField(column *octopus.Column) *Field {
 func (c *Generator) Generate(outputPath string) error {
 	// TODO: generate with template
 
+	filename := fmt.Sprintf("%s-%s.graphqls", c.schema.Name, c.schema.Version)
+	if err := util.CheckFileName(filename); err != nil {
+		return err
+	}
+
 	// Create directory
 	if err := os.MkdirAll(outputPath, 0777); err != nil {
 		return err
@@ -192,8 +198,7 @@ func (c *Generator) Generate(outputPath string) error {
 	}
 
 	// Write file
-	outputFile := path.Join(outputPath,
-		fmt.Sprintf("%s-%s.graphqls", c.schema.Name, c.schema.Version))
+	outputFile := path.Join(outputPath, filename)
 
 	if err := ioutil.WriteFile(outputFile, []byte(strings.Join(contents, "\n")), 0644); err != nil {
 		return err
diff --git a/format/jpa/kotlin-gen.go b/format/jpa/kotlin-gen.go
index 1743479..1ce3f5b 100644
--- a/format/jpa/kotlin-gen.go
+++ b/format/jpa/kotlin-gen.go
@@ -290,6 +290,9 @@ func (c *KtGenerator) Generate(outputPath string) error {
 		if err := classNames.AddTable(class.Name, class.table.Name); err != nil {
 			return err
 		}
+		if err := util.CheckFileName(class.Name); err != nil {
+			return err
+		}
 		fieldNames := common.NameSet{}
 		for _, field := range class.Fields {
 			if err := fieldNames.AddColumn(field.Name, class.table.Name, field.Column.Name); err != nil {
diff --git a/format/sqlalchemy/generator.go b/format/sqlalchemy/generator.go
index 3f92aac..3d38ee7 100644
--- a/format/sqlalchemy/generator.go
+++ b/format/sqlalchemy/generator.go
@@ -67,6 +67,8 @@ func (c *Generator) Generate(outputPath string) error {
 			if err := classNames.AddTable(class.Name, table.Name); err != nil {
 				return err
 			}
+		} else if err := util.CheckFileName(table.Name); err != nil {
+			return err
 		}
 		fieldNames := common.NameSet{}
 		for _, field := range class.Fields {
diff --git a/util/io.go b/util/io.go
index 18d5e36..4cf8929 100644
--- a/util/io.go
+++ b/util/io.go
@@ -1,6 +1,7 @@
 package util
 
 import (
+	"fmt"
 	"io/ioutil"
 	"log"
 	"os"
@@ -17,6 +18,14 @@ func MkdirPackage(basedir, pkgName string) (string, error) {
 	return dir, nil
 }
 
+// CheckFileName returns an error if the name is not the name of a file in a directory.
+func CheckFileName(name string) error {
+	if name == "." || name == ".." || name != path.Base(name) {
+		return fmt.Errorf("invalid file name: '%s'", name)
+	}
+	return nil
+}
+
 func WriteStringToFile(filename string, s string) error {
 	if err := ioutil.WriteFile(filename, []byte(s), 0644); err != nil {
 		return err
-- 
2.43.0

