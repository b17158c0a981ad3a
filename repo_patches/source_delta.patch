From 1d7e8e4eee86892370078c553f791abe1724312a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:20 +0000
Subject: [PATCH 01/44] fix: write user documentation entries

WriteRAML failed on every API document that has a documentation node
because Documentation could not be converted to YAML.
---
 v0/internal/raml/Documentation.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/v0/internal/raml/Documentation.go b/v0/internal/raml/Documentation.go
index f4e5858..795eda8 100644
--- a/v0/internal/raml/Documentation.go
+++ b/v0/internal/raml/Documentation.go
@@ -46,6 +46,14 @@ func (d *Documentation) MarshalRAML(out raml.AnyMap) (simple bool, err error) {
 	return false, nil
 }
 
+func (d *Documentation) ToYAML() (*yaml.Node, error) {
+	out := raml.NewAnyMap(2 + d.extra.Len()).SerializeOrdered(false)
+	if _, err := d.MarshalRAML(out); err != nil {
+		return nil, err
+	}
+	return out.ToYAML()
+}
+
 func (d *Documentation) UnmarshalRAML(val *yaml.Node) error {
 	return xyml.MapForEach(val, func(k, v *yaml.Node) error {
 		switch k.Value {
-- 
2.43.0


From 991852d831f49b0c1db5b6790a59aaafc229aaf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:22 +0000
Subject: [PATCH 02/44] fix: reject non-string documentation titles and
 contents

A map, list or number used as the title or content of a documentation
entry was silently replaced by the node's raw text.
---
 v0/internal/raml/Documentation.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/v0/internal/raml/Documentation.go b/v0/internal/raml/Documentation.go
index 795eda8..4e21f03 100644
--- a/v0/internal/raml/Documentation.go
+++ b/v0/internal/raml/Documentation.go
@@ -1,6 +1,7 @@
 package raml
 
 import (
+	"github.com/Foxcapades/lib-go-raml/v0/internal/util/assign"
 	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml"
 	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml/rmeta"
 	"github.com/Foxcapades/lib-go-yaml/v1/pkg/xyml"
@@ -58,9 +59,9 @@ func (d *Documentation) UnmarshalRAML(val *yaml.Node) error {
 	return xyml.MapForEach(val, func(k, v *yaml.Node) error {
 		switch k.Value {
 		case rmeta.KeyTitle:
-			d.title = v.Value
+			return assign.AsString(v, &d.title)
 		case rmeta.KeyContent:
-			d.content = v.Value
+			return assign.AsString(v, &d.content)
 		default:
 			if key, err := xyml.ToScalarValue(k); err != nil {
 				return err
-- 
2.43.0


From c984e8317a606306ea39a6111d9d752c6c4644f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:41 +0000
Subject: [PATCH 03/44] fix: write the xml facet of type declarations

Writing any type with an xml facet failed because XML could not be
converted to YAML, and the facet's unrecognized entries were dropped.
---
 v0/internal/raml/type-xml.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/v0/internal/raml/type-xml.go b/v0/internal/raml/type-xml.go
index 869366c..8c91366 100644
--- a/v0/internal/raml/type-xml.go
+++ b/v0/internal/raml/type-xml.go
@@ -11,7 +11,7 @@ import (
 
 func NewXML() *XML {
 	return &XML{
-		extra: make(map[interface{}]interface{}),
+		extra: raml.NewAnyMap(0).SerializeOrdered(false),
 	}
 }
 
@@ -21,7 +21,7 @@ type XML struct {
 	name   *string
 	ns     *string
 	pref   *string
-	extra  map[interface{}]interface{}
+	extra  raml.AnyMap
 }
 
 func (x *XML) IsAttribute() option.Bool {
@@ -104,10 +104,19 @@ func (x XML) MarshalRAML(out raml.AnyMap) (bool, error) {
 		PutIfNotNil(rmeta.KeyName, x.name).
 		PutIfNotNil(rmeta.KeyNamespace, x.ns).
 		PutIfNotNil(rmeta.KeyPrefix, x.pref)
+	x.extra.ForEach(func(k, v interface{}) { out.Put(k, v) })
 
 	return false, nil
 }
 
+func (x XML) ToYAML() (*yaml.Node, error) {
+	out := raml.NewAnyMap(5 + x.extra.Len()).SerializeOrdered(false)
+	if _, err := x.MarshalRAML(out); err != nil {
+		return nil, err
+	}
+	return out.ToYAML()
+}
+
 func (x *XML) assign(key, val *yaml.Node) error {
 	switch key.Value {
 	case rmeta.KeyAttribute:
@@ -124,7 +133,7 @@ func (x *XML) assign(key, val *yaml.Node) error {
 		if k, err := xyml.ToScalarValue(key); err != nil {
 			return err
 		} else {
-			x.extra[k] = val
+			x.extra.Put(k, val)
 		}
 	}
 
-- 
2.43.0


From 3174d56ba26d243ba4a3c0445f5879ed649c06f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:29 +0000
Subject: [PATCH 04/44] fix: write simple examples as plain values

Examples without any metadata were written as a map with an empty key
instead of as the plain value.  Examples without a value are written in
the expanded form, the plain form has no way to express them.
---
 v0/gen/example-m.tpl                      | 7 +++++--
 v0/internal/raml/x-gen-ex-any.go          | 7 +++++--
 v0/internal/raml/x-gen-ex-array.go        | 7 +++++--
 v0/internal/raml/x-gen-ex-bool.go         | 7 +++++--
 v0/internal/raml/x-gen-ex-custom.go       | 7 +++++--
 v0/internal/raml/x-gen-ex-dateonly.go     | 7 +++++--
 v0/internal/raml/x-gen-ex-datetime.go     | 7 +++++--
 v0/internal/raml/x-gen-ex-datetimeonly.go | 7 +++++--
 v0/internal/raml/x-gen-ex-file.go         | 7 +++++--
 v0/internal/raml/x-gen-ex-integer.go      | 7 +++++--
 v0/internal/raml/x-gen-ex-number.go       | 7 +++++--
 v0/internal/raml/x-gen-ex-object.go       | 7 +++++--
 v0/internal/raml/x-gen-ex-string.go       | 7 +++++--
 v0/internal/raml/x-gen-ex-timeonly.go     | 7 +++++--
 v0/internal/raml/x-gen-ex-union.go        | 7 +++++--
 15 files changed, 75 insertions(+), 30 deletions(-)

diff --git a/v0/gen/example-m.tpl b/v0/gen/example-m.tpl
index e2d59fa..ff8f831 100644
--- a/v0/gen/example-m.tpl
+++ b/v0/gen/example-m.tpl
@@ -112,8 +112,10 @@ func (e *{{.Name}}Example) ExtraFacets() raml.AnyMap {
 
 func (e {{.Name}}Example) ToYAML() (*yaml.Node, error) {
 	out := raml.NewAnyMap(4 + e.annotations.Len() + e.extra.Len()).SerializeOrdered(false)
-	if _, err := e.MarshalRAML(out); err != nil {
+	if short, err := e.MarshalRAML(out); err != nil {
 		return nil, err
+	} else if short {
+		return xyml.ToYamlNode(e.value)
 	}
 	return out.ToYAML()
 }
@@ -187,7 +189,8 @@ func (e *{{.Name}}Example) assign(key, val *yaml.Node) error {
 }
 
 func (e *{{.Name}}Example) expand() bool {
-	return e.displayName != nil ||
+	return e.value == nil ||
+		e.displayName != nil ||
 		e.description != nil ||
 		e.annotations.Len() > 0 ||
 		e.extra.Len() > 0 ||
diff --git a/v0/internal/raml/x-gen-ex-any.go b/v0/internal/raml/x-gen-ex-any.go
index f6f00e3..c19c907 100644
--- a/v0/internal/raml/x-gen-ex-any.go
+++ b/v0/internal/raml/x-gen-ex-any.go
@@ -106,8 +106,10 @@ func (e *AnyExample) ExtraFacets() raml.AnyMap {
 
 func (e AnyExample) ToYAML() (*yaml.Node, error) {
 	out := raml.NewAnyMap(4 + e.annotations.Len() + e.extra.Len()).SerializeOrdered(false)
-	if _, err := e.MarshalRAML(out); err != nil {
+	if short, err := e.MarshalRAML(out); err != nil {
 		return nil, err
+	} else if short {
+		return xyml.ToYamlNode(e.value)
 	}
 	return out.ToYAML()
 }
@@ -181,7 +183,8 @@ func (e *AnyExample) assign(key, val *yaml.Node) error {
 }
 
 func (e *AnyExample) expand() bool {
-	return e.displayName != nil ||
+	return e.value == nil ||
+		e.displayName != nil ||
 		e.description != nil ||
 		e.annotations.Len() > 0 ||
 		e.extra.Len() > 0 ||
diff --git a/v0/internal/raml/x-gen-ex-array.go b/v0/internal/raml/x-gen-ex-array.go
index b2b7c78..79d4048 100644
--- a/v0/internal/raml/x-gen-ex-array.go
+++ b/v0/internal/raml/x-gen-ex-array.go
@@ -106,8 +106,10 @@ func (e *ArrayExample) ExtraFacets() raml.AnyMap {
 
 func (e ArrayExample) ToYAML() (*yaml.Node, error) {
 	out := raml.NewAnyMap(4 + e.annotations.Len() + e.extra.Len()).SerializeOrdered(false)
-	if _, err := e.MarshalRAML(out); err != nil {
+	if short, err := e.MarshalRAML(out); err != nil {
 		return nil, err
+	} else if short {
+		return xyml.ToYamlNode(e.value)
 	}
 	return out.ToYAML()
 }
@@ -181,7 +183,8 @@ func (e *ArrayExample) assign(key, val *yaml.Node) error {
 }
 
 func (e *ArrayExample) expand() bool {
-	return e.displayName != nil ||
+	return e.value == nil ||
+		e.displayName != nil ||
 		e.description != nil ||
 		e.annotations.Len() > 0 ||
 		e.extra.Len() > 0 ||
diff --git a/v0/internal/raml/x-gen-ex-bool.go b/v0/internal/raml/x-gen-ex-bool.go
index 57d54a0..c1abc17 100644
--- a/v0/internal/raml/x-gen-ex-bool.go
+++ b/v0/internal/raml/x-gen-ex-bool.go
@@ -106,8 +106,10 @@ func (e *BoolExample) ExtraFacets() raml.AnyMap {
 
 func (e BoolExample) ToYAML() (*yaml.Node, error) {
 	out := raml.NewAnyMap(4 + e.annotations.Len() + e.extra.Len()).SerializeOrdered(false)
-	if _, err := e.MarshalRAML(out); err != nil {
+	if short, err := e.MarshalRAML(out); err != nil {
 		return nil, err
+	} else if short {
+		return xyml.ToYamlNode(e.value)
 	}
 	return out.ToYAML()
 }
@@ -181,7 +183,8 @@ func (e *BoolExample) assign(key, val *yaml.Node) error {
 }
 
 func (e *BoolExample) expand() bool {
-	return e.displayName != nil ||
+	return e.value == nil ||
+		e.displayName != nil ||
 		e.description != nil ||
 		e.annotations.Len() > 0 ||
 		e.extra.Len() > 0 ||
diff --git a/v0/internal/raml/x-gen-ex-custom.go b/v0/internal/raml/x-gen-ex-custom.go
index 1b2921e..7f98ff6 100644
--- a/v0/internal/raml/x-gen-ex-custom.go
+++ b/v0/internal/raml/x-gen-ex-custom.go
@@ -106,8 +106,10 @@ func (e *CustomExample) ExtraFacets() raml.AnyMap {
 
 func (e CustomExample) ToYAML() (*yaml.Node, error) {
 	out := raml.NewAnyMap(4 + e.annotations.Len() + e.extra.Len()).SerializeOrdered(false)
-	if _, err := e.MarshalRAML(out); err != nil {
+	if short, err := e.MarshalRAML(out); err != nil {
 		return nil, err
+	} else if short {
+		return xyml.ToYamlNode(e.value)
 	}
 	return out.ToYAML()
 }
@@ -181,7 +183,8 @@ func (e *CustomExample) assign(key, val *yaml.Node) error {
 }
 
 func (e *CustomExample) expand() bool {
-	return e.displayName != nil ||
+	return e.value == nil ||
+		e.displayName != nil ||
 		e.description != nil ||
 		e.annotations.Len() > 0 ||
 		e.extra.Len() > 0 ||
diff --git a/v0/internal/raml/x-gen-ex-dateonly.go b/v0/internal/raml/x-gen-ex-dateonly.go
index 978a154..0fc6524 100644
--- a/v0/internal/raml/x-gen-ex-dateonly.go
+++ b/v0/internal/raml/x-gen-ex-dateonly.go
@@ -106,8 +106,10 @@ func (e *DateOnlyExample) ExtraFacets() raml.AnyMap {
 
 func (e DateOnlyExample) ToYAML() (*yaml.Node, error) {
 	out := raml.NewAnyMap(4 + e.annotations.Len() + e.extra.Len()).SerializeOrdered(false)
-	if _, err := e.MarshalRAML(out); err != nil {
+	if short, err := e.MarshalRAML(out); err != nil {
 		return nil, err
+	} else if short {
+		return xyml.ToYamlNode(e.value)
 	}
 	return out.ToYAML()
 }
@@ -181,7 +183,8 @@ func (e *DateOnlyExample) assign(key, val *yaml.Node) error {
 }
 
 func (e *DateOnlyExample) expand() bool {
-	return e.displayName != nil ||
+	return e.value == nil ||
+		e.displayName != nil ||
 		e.description != nil ||
 		e.annotations.Len() > 0 ||
 		e.extra.Len() > 0 ||
diff --git a/v0/internal/raml/x-gen-ex-datetime.go b/v0/internal/raml/x-gen-ex-datetime.go
index 41892ba..c49a94c 100644
--- a/v0/internal/raml/x-gen-ex-datetime.go
+++ b/v0/internal/raml/x-gen-ex-datetime.go
@@ -106,8 +106,10 @@ func (e *DatetimeExample) ExtraFacets() raml.AnyMap {
 
 func (e DatetimeExample) ToYAML() (*yaml.Node, error) {
 	out := raml.NewAnyMap(4 + e.annotations.Len() + e.extra.Len()).SerializeOrdered(false)
-	if _, err := e.MarshalRAML(out); err != nil {
+	if short, err := e.MarshalRAML(out); err != nil {
 		return nil, err
+	} else if short {
+		return xyml.ToYamlNode(e.value)
 	}
 	return out.ToYAML()
 }
@@ -181,7 +183,8 @@ func (e *DatetimeExample) assign(key, val *yaml.Node) error {
 }
 
 func (e *DatetimeExample) expand() bool {
-	return e.displayName != nil ||
+	return e.value == nil ||
+		e.displayName != nil ||
 		e.description != nil ||
 		e.annotations.Len() > 0 ||
 		e.extra.Len() > 0 ||
diff --git a/v0/internal/raml/x-gen-ex-datetimeonly.go b/v0/internal/raml/x-gen-ex-datetimeonly.go
index ea01bed..9ff5a3b 100644
--- a/v0/internal/raml/x-gen-ex-datetimeonly.go
+++ b/v0/internal/raml/x-gen-ex-datetimeonly.go
@@ -106,8 +106,10 @@ func (e *DatetimeOnlyExample) ExtraFacets() raml.AnyMap {
 
 func (e DatetimeOnlyExample) ToYAML() (*yaml.Node, error) {
 	out := raml.NewAnyMap(4 + e.annotations.Len() + e.extra.Len()).SerializeOrdered(false)
-	if _, err := e.MarshalRAML(out); err != nil {
+	if short, err := e.MarshalRAML(out); err != nil {
 		return nil, err
+	} else if short {
+		return xyml.ToYamlNode(e.value)
 	}
 	return out.ToYAML()
 }
@@ -181,7 +183,8 @@ func (e *DatetimeOnlyExample) assign(key, val *yaml.Node) error {
 }
 
 func (e *DatetimeOnlyExample) expand() bool {
-	return e.displayName != nil ||
+	return e.value == nil ||
+		e.displayName != nil ||
 		e.description != nil ||
 		e.annotations.Len() > 0 ||
 		e.extra.Len() > 0 ||
diff --git a/v0/internal/raml/x-gen-ex-file.go b/v0/internal/raml/x-gen-ex-file.go
index 06f99d5..4a4e77c 100644
--- a/v0/internal/raml/x-gen-ex-file.go
+++ b/v0/internal/raml/x-gen-ex-file.go
@@ -106,8 +106,10 @@ func (e *FileExample) ExtraFacets() raml.AnyMap {
 
 func (e FileExample) ToYAML() (*yaml.Node, error) {
 	out := raml.NewAnyMap(4 + e.annotations.Len() + e.extra.Len()).SerializeOrdered(false)
-	if _, err := e.MarshalRAML(out); err != nil {
+	if short, err := e.MarshalRAML(out); err != nil {
 		return nil, err
+	} else if short {
+		return xyml.ToYamlNode(e.value)
 	}
 	return out.ToYAML()
 }
@@ -181,7 +183,8 @@ func (e *FileExample) assign(key, val *yaml.Node) error {
 }
 
 func (e *FileExample) expand() bool {
-	return e.displayName != nil ||
+	return e.value == nil ||
+		e.displayName != nil ||
 		e.description != nil ||
 		e.annotations.Len() > 0 ||
 		e.extra.Len() > 0 ||
diff --git a/v0/internal/raml/x-gen-ex-integer.go b/v0/internal/raml/x-gen-ex-integer.go
index cd98696..c9c17f4 100644
--- a/v0/internal/raml/x-gen-ex-integer.go
+++ b/v0/internal/raml/x-gen-ex-integer.go
@@ -106,8 +106,10 @@ func (e *IntegerExample) ExtraFacets() raml.AnyMap {
 
 func (e IntegerExample) ToYAML() (*yaml.Node, error) {
 	out := raml.NewAnyMap(4 + e.annotations.Len() + e.extra.Len()).SerializeOrdered(false)
-	if _, err := e.MarshalRAML(out); err != nil {
+	if short, err := e.MarshalRAML(out); err != nil {
 		return nil, err
+	} else if short {
+		return xyml.ToYamlNode(e.value)
 	}
 	return out.ToYAML()
 }
@@ -181,7 +183,8 @@ func (e *IntegerExample) assign(key, val *yaml.Node) error {
 }
 
 func (e *IntegerExample) expand() bool {
-	return e.displayName != nil ||
+	return e.value == nil ||
+		e.displayName != nil ||
 		e.description != nil ||
 		e.annotations.Len() > 0 ||
 		e.extra.Len() > 0 ||
diff --git a/v0/internal/raml/x-gen-ex-number.go b/v0/internal/raml/x-gen-ex-number.go
index 5c644a6..739ae84 100644
--- a/v0/internal/raml/x-gen-ex-number.go
+++ b/v0/internal/raml/x-gen-ex-number.go
@@ -106,8 +106,10 @@ func (e *NumberExample) ExtraFacets() raml.AnyMap {
 
 func (e NumberExample) ToYAML() (*yaml.Node, error) {
 	out := raml.NewAnyMap(4 + e.annotations.Len() + e.extra.Len()).SerializeOrdered(false)
-	if _, err := e.MarshalRAML(out); err != nil {
+	if short, err := e.MarshalRAML(out); err != nil {
 		return nil, err
+	} else if short {
+		return xyml.ToYamlNode(e.value)
 	}
 	return out.ToYAML()
 }
@@ -181,7 +183,8 @@ func (e *NumberExample) assign(key, val *yaml.Node) error {
 }
 
 func (e *NumberExample) expand() bool {
-	return e.displayName != nil ||
+	return e.value == nil ||
+		e.displayName != nil ||
 		e.description != nil ||
 		e.annotations.Len() > 0 ||
 		e.extra.Len() > 0 ||
diff --git a/v0/internal/raml/x-gen-ex-object.go b/v0/internal/raml/x-gen-ex-object.go
index 28d8833..be88bba 100644
--- a/v0/internal/raml/x-gen-ex-object.go
+++ b/v0/internal/raml/x-gen-ex-object.go
@@ -106,8 +106,10 @@ func (e *ObjectExample) ExtraFacets() raml.AnyMap {
 
 func (e ObjectExample) ToYAML() (*yaml.Node, error) {
 	out := raml.NewAnyMap(4 + e.annotations.Len() + e.extra.Len()).SerializeOrdered(false)
-	if _, err := e.MarshalRAML(out); err != nil {
+	if short, err := e.MarshalRAML(out); err != nil {
 		return nil, err
+	} else if short {
+		return xyml.ToYamlNode(e.value)
 	}
 	return out.ToYAML()
 }
@@ -181,7 +183,8 @@ func (e *ObjectExample) assign(key, val *yaml.Node) error {
 }
 
 func (e *ObjectExample) expand() bool {
-	return e.displayName != nil ||
+	return e.value == nil ||
+		e.displayName != nil ||
 		e.description != nil ||
 		e.annotations.Len() > 0 ||
 		e.extra.Len() > 0 ||
diff --git a/v0/internal/raml/x-gen-ex-string.go b/v0/internal/raml/x-gen-ex-string.go
index 6b7ae17..d61cb4c 100644
--- a/v0/internal/raml/x-gen-ex-string.go
+++ b/v0/internal/raml/x-gen-ex-string.go
@@ -106,8 +106,10 @@ func (e *StringExample) ExtraFacets() raml.AnyMap {
 
 func (e StringExample) ToYAML() (*yaml.Node, error) {
 	out := raml.NewAnyMap(4 + e.annotations.Len() + e.extra.Len()).SerializeOrdered(false)
-	if _, err := e.MarshalRAML(out); err != nil {
+	if short, err := e.MarshalRAML(out); err != nil {
 		return nil, err
+	} else if short {
+		return xyml.ToYamlNode(e.value)
 	}
 	return out.ToYAML()
 }
@@ -181,7 +183,8 @@ func (e *StringExample) assign(key, val *yaml.Node) error {
 }
 
 func (e *StringExample) expand() bool {
-	return e.displayName != nil ||
+	return e.value == nil ||
+		e.displayName != nil ||
 		e.description != nil ||
 		e.annotations.Len() > 0 ||
 		e.extra.Len() > 0 ||
diff --git a/v0/internal/raml/x-gen-ex-timeonly.go b/v0/internal/raml/x-gen-ex-timeonly.go
index c499f36..ee1d938 100644
--- a/v0/internal/raml/x-gen-ex-timeonly.go
+++ b/v0/internal/raml/x-gen-ex-timeonly.go
@@ -106,8 +106,10 @@ func (e *TimeOnlyExample) ExtraFacets() raml.AnyMap {
 
 func (e TimeOnlyExample) ToYAML() (*yaml.Node, error) {
 	out := raml.NewAnyMap(4 + e.annotations.Len() + e.extra.Len()).SerializeOrdered(false)
-	if _, err := e.MarshalRAML(out); err != nil {
+	if short, err := e.MarshalRAML(out); err != nil {
 		return nil, err
+	} else if short {
+		return xyml.ToYamlNode(e.value)
 	}
 	return out.ToYAML()
 }
@@ -181,7 +183,8 @@ func (e *TimeOnlyExample) assign(key, val *yaml.Node) error {
 }
 
 func (e *TimeOnlyExample) expand() bool {
-	return e.displayName != nil ||
+	return e.value == nil ||
+		e.displayName != nil ||
 		e.description != nil ||
 		e.annotations.Len() > 0 ||
 		e.extra.Len() > 0 ||
diff --git a/v0/internal/raml/x-gen-ex-union.go b/v0/internal/raml/x-gen-ex-union.go
index 6a23242..baafce9 100644
--- a/v0/internal/raml/x-gen-ex-union.go
+++ b/v0/internal/raml/x-gen-ex-union.go
@@ -106,8 +106,10 @@ func (e *UnionExample) ExtraFacets() raml.AnyMap {
 
 func (e UnionExample) ToYAML() (*yaml.Node, error) {
 	out := raml.NewAnyMap(4 + e.annotations.Len() + e.extra.Len()).SerializeOrdered(false)
-	if _, err := e.MarshalRAML(out); err != nil {
+	if short, err := e.MarshalRAML(out); err != nil {
 		return nil, err
+	} else if short {
+		return xyml.ToYamlNode(e.value)
 	}
 	return out.ToYAML()
 }
@@ -181,7 +183,8 @@ func (e *UnionExample) assign(key, val *yaml.Node) error {
 }
 
 func (e *UnionExample) expand() bool {
-	return e.displayName != nil ||
+	return e.value == nil ||
+		e.displayName != nil ||
 		e.description != nil ||
 		e.annotations.Len() > 0 ||
 		e.extra.Len() > 0 ||
-- 
2.43.0


From 316a185d18c308de6d4863c3e63db712572b1176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:32 +0000
Subject: [PATCH 05/44] fix: write parsed examples of untyped kinds

The YAML node of any, custom, file, object and union examples was stored
by value, a form that cannot be written back out.
---
 v0/gen/example-m.tpl                | 2 +-
 v0/internal/raml/x-gen-ex-any.go    | 2 +-
 v0/internal/raml/x-gen-ex-custom.go | 2 +-
 v0/internal/raml/x-gen-ex-file.go   | 2 +-
 v0/internal/raml/x-gen-ex-object.go | 2 +-
 v0/internal/raml/x-gen-ex-union.go  | 2 +-
 6 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/v0/gen/example-m.tpl b/v0/gen/example-m.tpl
index ff8f831..33a9e5e 100644
--- a/v0/gen/example-m.tpl
+++ b/v0/gen/example-m.tpl
@@ -228,7 +228,7 @@ func (e *{{.Name}}Example) assignVal(val *yaml.Node) error {
 		return nil
 	})
 	{{- else -}}
-	var tmp interface{} = *val
+	var tmp interface{} = val
 	e.value = &tmp
 	{{- end}}
 
diff --git a/v0/internal/raml/x-gen-ex-any.go b/v0/internal/raml/x-gen-ex-any.go
index c19c907..f21910d 100644
--- a/v0/internal/raml/x-gen-ex-any.go
+++ b/v0/internal/raml/x-gen-ex-any.go
@@ -192,7 +192,7 @@ func (e *AnyExample) expand() bool {
 }
 
 func (e *AnyExample) assignVal(val *yaml.Node) error {
-	var tmp interface{} = *val
+	var tmp interface{} = val
 	e.value = &tmp
 
 	return nil
diff --git a/v0/internal/raml/x-gen-ex-custom.go b/v0/internal/raml/x-gen-ex-custom.go
index 7f98ff6..9b2fbfd 100644
--- a/v0/internal/raml/x-gen-ex-custom.go
+++ b/v0/internal/raml/x-gen-ex-custom.go
@@ -192,7 +192,7 @@ func (e *CustomExample) expand() bool {
 }
 
 func (e *CustomExample) assignVal(val *yaml.Node) error {
-	var tmp interface{} = *val
+	var tmp interface{} = val
 	e.value = &tmp
 
 	return nil
diff --git a/v0/internal/raml/x-gen-ex-file.go b/v0/internal/raml/x-gen-ex-file.go
index 4a4e77c..d06825f 100644
--- a/v0/internal/raml/x-gen-ex-file.go
+++ b/v0/internal/raml/x-gen-ex-file.go
@@ -192,7 +192,7 @@ func (e *FileExample) expand() bool {
 }
 
 func (e *FileExample) assignVal(val *yaml.Node) error {
-	var tmp interface{} = *val
+	var tmp interface{} = val
 	e.value = &tmp
 
 	return nil
diff --git a/v0/internal/raml/x-gen-ex-object.go b/v0/internal/raml/x-gen-ex-object.go
index be88bba..3d3746d 100644
--- a/v0/internal/raml/x-gen-ex-object.go
+++ b/v0/internal/raml/x-gen-ex-object.go
@@ -192,7 +192,7 @@ func (e *ObjectExample) expand() bool {
 }
 
 func (e *ObjectExample) assignVal(val *yaml.Node) error {
-	var tmp interface{} = *val
+	var tmp interface{} = val
 	e.value = &tmp
 
 	return nil
diff --git a/v0/internal/raml/x-gen-ex-union.go b/v0/internal/raml/x-gen-ex-union.go
index baafce9..414c52f 100644
--- a/v0/internal/raml/x-gen-ex-union.go
+++ b/v0/internal/raml/x-gen-ex-union.go
@@ -192,7 +192,7 @@ func (e *UnionExample) expand() bool {
 }
 
 func (e *UnionExample) assignVal(val *yaml.Node) error {
-	var tmp interface{} = *val
+	var tmp interface{} = val
 	e.value = &tmp
 
 	return nil
-- 
2.43.0


From 93e15b935f0f82f940cf4518c45b0cb949f6b7ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:35 +0000
Subject: [PATCH 06/44] fix: keep map values of untyped examples

A map given as the example of an any, custom, file, object or union type
was always taken for the expanded form, which moved its entries into the
example's facets and failed on keys such as description or strict.
---
 v0/gen/example-m.tpl                |  5 ++++-
 v0/internal/raml/example.go         | 33 +++++++++++++++++++++++++++++
 v0/internal/raml/x-gen-ex-any.go    |  3 ++-
 v0/internal/raml/x-gen-ex-custom.go |  3 ++-
 v0/internal/raml/x-gen-ex-file.go   |  3 ++-
 v0/internal/raml/x-gen-ex-object.go |  3 ++-
 v0/internal/raml/x-gen-ex-union.go  |  3 ++-
 7 files changed, 47 insertions(+), 6 deletions(-)
 create mode 100644 v0/internal/raml/example.go

diff --git a/v0/gen/example-m.tpl b/v0/gen/example-m.tpl
index 33a9e5e..5baef7e 100644
--- a/v0/gen/example-m.tpl
+++ b/v0/gen/example-m.tpl
@@ -122,7 +122,7 @@ func (e {{.Name}}Example) ToYAML() (*yaml.Node, error) {
 
 func (e *{{.Name}}Example) UnmarshalRAML(value *yaml.Node) error {
 
-	if xyml.IsMap(value) {
+	if {{if eq .Type "interface{}"}}isExpandedExample(value){{else}}xyml.IsMap(value){{end}} {
 		return xyml.MapForEach(value, e.assign)
 	}
 
@@ -190,6 +190,9 @@ func (e *{{.Name}}Example) assign(key, val *yaml.Node) error {
 
 func (e *{{.Name}}Example) expand() bool {
 	return e.value == nil ||
+		{{if eq .Type "interface{}" -}}
+		needsExpandedExample(e.value) ||
+		{{end -}}
 		e.displayName != nil ||
 		e.description != nil ||
 		e.annotations.Len() > 0 ||
diff --git a/v0/internal/raml/example.go b/v0/internal/raml/example.go
new file mode 100644
index 0000000..50a9916
--- /dev/null
+++ b/v0/internal/raml/example.go
@@ -0,0 +1,33 @@
+package raml
+
+import (
+	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml/rmeta"
+	"github.com/Foxcapades/lib-go-yaml/v1/pkg/xyml"
+	"gopkg.in/yaml.v3"
+)
+
+// isExpandedExample returns whether the given node is the expanded form of an
+// example whose value may itself be a map.
+//
+// The value facet is required in the expanded form, a map without it is the
+// plain value of an example.
+func isExpandedExample(y *yaml.Node) bool {
+	if !xyml.IsMap(y) {
+		return false
+	}
+
+	for i := 0; i < len(y.Content); i += 2 {
+		if xyml.IsString(y.Content[i]) && y.Content[i].Value == rmeta.KeyValue {
+			return true
+		}
+	}
+
+	return false
+}
+
+// needsExpandedExample returns whether the given example value would be taken
+// for the expanded form of an example if it were written on its own.
+func needsExpandedExample(val interface{}) bool {
+	y, err := xyml.ToYamlNode(val)
+	return err == nil && isExpandedExample(y)
+}
diff --git a/v0/internal/raml/x-gen-ex-any.go b/v0/internal/raml/x-gen-ex-any.go
index f21910d..17ff69f 100644
--- a/v0/internal/raml/x-gen-ex-any.go
+++ b/v0/internal/raml/x-gen-ex-any.go
@@ -116,7 +116,7 @@ func (e AnyExample) ToYAML() (*yaml.Node, error) {
 
 func (e *AnyExample) UnmarshalRAML(value *yaml.Node) error {
 
-	if xyml.IsMap(value) {
+	if isExpandedExample(value) {
 		return xyml.MapForEach(value, e.assign)
 	}
 
@@ -184,6 +184,7 @@ func (e *AnyExample) assign(key, val *yaml.Node) error {
 
 func (e *AnyExample) expand() bool {
 	return e.value == nil ||
+		needsExpandedExample(e.value) ||
 		e.displayName != nil ||
 		e.description != nil ||
 		e.annotations.Len() > 0 ||
diff --git a/v0/internal/raml/x-gen-ex-custom.go b/v0/internal/raml/x-gen-ex-custom.go
index 9b2fbfd..2252878 100644
--- a/v0/internal/raml/x-gen-ex-custom.go
+++ b/v0/internal/raml/x-gen-ex-custom.go
@@ -116,7 +116,7 @@ func (e CustomExample) ToYAML() (*yaml.Node, error) {
 
 func (e *CustomExample) UnmarshalRAML(value *yaml.Node) error {
 
-	if xyml.IsMap(value) {
+	if isExpandedExample(value) {
 		return xyml.MapForEach(value, e.assign)
 	}
 
@@ -184,6 +184,7 @@ func (e *CustomExample) assign(key, val *yaml.Node) error {
 
 func (e *CustomExample) expand() bool {
 	return e.value == nil ||
+		needsExpandedExample(e.value) ||
 		e.displayName != nil ||
 		e.description != nil ||
 		e.annotations.Len() > 0 ||
diff --git a/v0/internal/raml/x-gen-ex-file.go b/v0/internal/raml/x-gen-ex-file.go
index d06825f..dc6995c 100644
--- a/v0/internal/raml/x-gen-ex-file.go
+++ b/v0/internal/raml/x-gen-ex-file.go
@@ -116,7 +116,7 @@ func (e FileExample) ToYAML() (*yaml.Node, error) {
 
 func (e *FileExample) UnmarshalRAML(value *yaml.Node) error {
 
-	if xyml.IsMap(value) {
+	if isExpandedExample(value) {
 		return xyml.MapForEach(value, e.assign)
 	}
 
@@ -184,6 +184,7 @@ func (e *FileExample) assign(key, val *yaml.Node) error {
 
 func (e *FileExample) expand() bool {
 	return e.value == nil ||
+		needsExpandedExample(e.value) ||
 		e.displayName != nil ||
 		e.description != nil ||
 		e.annotations.Len() > 0 ||
diff --git a/v0/internal/raml/x-gen-ex-object.go b/v0/internal/raml/x-gen-ex-object.go
index 3d3746d..7dcefd6 100644
--- a/v0/internal/raml/x-gen-ex-object.go
+++ b/v0/internal/raml/x-gen-ex-object.go
@@ -116,7 +116,7 @@ func (e ObjectExample) ToYAML() (*yaml.Node, error) {
 
 func (e *ObjectExample) UnmarshalRAML(value *yaml.Node) error {
 
-	if xyml.IsMap(value) {
+	if isExpandedExample(value) {
 		return xyml.MapForEach(value, e.assign)
 	}
 
@@ -184,6 +184,7 @@ func (e *ObjectExample) assign(key, val *yaml.Node) error {
 
 func (e *ObjectExample) expand() bool {
 	return e.value == nil ||
+		needsExpandedExample(e.value) ||
 		e.displayName != nil ||
 		e.description != nil ||
 		e.annotations.Len() > 0 ||
diff --git a/v0/internal/raml/x-gen-ex-union.go b/v0/internal/raml/x-gen-ex-union.go
index 414c52f..f311d12 100644
--- a/v0/internal/raml/x-gen-ex-union.go
+++ b/v0/internal/raml/x-gen-ex-union.go
@@ -116,7 +116,7 @@ func (e UnionExample) ToYAML() (*yaml.Node, error) {
 
 func (e *UnionExample) UnmarshalRAML(value *yaml.Node) error {
 
-	if xyml.IsMap(value) {
+	if isExpandedExample(value) {
 		return xyml.MapForEach(value, e.assign)
 	}
 
@@ -184,6 +184,7 @@ func (e *UnionExample) assign(key, val *yaml.Node) error {
 
 func (e *UnionExample) expand() bool {
 	return e.value == nil ||
+		needsExpandedExample(e.value) ||
 		e.displayName != nil ||
 		e.description != nil ||
 		e.annotations.Len() > 0 ||
-- 
2.43.0


From 637039546cc1b407d3fe48216a2e341e4690671c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:07 +0000
Subject: [PATCH 07/44] fix: parse the example facet of any types

---
 v0/internal/raml/fn-sorting-hat-example.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/v0/internal/raml/fn-sorting-hat-example.go b/v0/internal/raml/fn-sorting-hat-example.go
index 7c85223..ecc6054 100644
--- a/v0/internal/raml/fn-sorting-hat-example.go
+++ b/v0/internal/raml/fn-sorting-hat-example.go
@@ -13,6 +13,8 @@ func ExampleSortingHat(kind rmeta.DataTypeKind) (raml.Example, error) {
 	logrus.Trace("internal.ExampleSortingHat")
 
 	switch kind {
+	case rmeta.TypeAny:
+		return NewAnyExample(), nil
 	case rmeta.TypeString:
 		return NewStringExample(), nil
 	case rmeta.TypeObject:
-- 
2.43.0


From c360242ec91743d6a800bb988a38e9fe62bf443e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:43 +0000
Subject: [PATCH 08/44] fix: allow nil and included types as properties

Declaring an object property of type nil or of an included type panicked
because neither implemented raml.Property.  The required facet now lives
in the base data type so that it applies to them too.
---
 v0/gen/type-m/base.tpl                 |  4 ++++
 v0/internal/raml/DataType.go           | 15 +++++++++++++++
 v0/internal/raml/type-datatype-ext.go  | 10 ----------
 v0/internal/raml/x-gen-type-include.go |  4 ++++
 4 files changed, 23 insertions(+), 10 deletions(-)

diff --git a/v0/gen/type-m/base.tpl b/v0/gen/type-m/base.tpl
index b8f4413..cffa103 100644
--- a/v0/gen/type-m/base.tpl
+++ b/v0/gen/type-m/base.tpl
@@ -39,6 +39,10 @@ func (a {{.Name}}Type) marshal(out raml.AnyMap) error {
 	})
 	a.DataType.hasExtra.out(out)
 
+	if !a.required {
+		out.Put(rmeta.KeyRequired, a.required)
+	}
+
 	return nil
 }
 {{end}}
diff --git a/v0/internal/raml/DataType.go b/v0/internal/raml/DataType.go
index 70c3338..feee06d 100644
--- a/v0/internal/raml/DataType.go
+++ b/v0/internal/raml/DataType.go
@@ -2,6 +2,7 @@ package raml
 
 import (
 	"errors"
+	"github.com/Foxcapades/lib-go-raml/v0/internal/util/assign"
 	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml"
 	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml/rmeta"
 	"github.com/Foxcapades/lib-go-yaml/v1/pkg/xyml"
@@ -15,6 +16,7 @@ func NewDataType(kind rmeta.DataTypeKind, self concreteType) *DataType {
 		schema:   string(kind),
 		kind:     kind,
 		hasExtra: makeExtra(),
+		required: true,
 	}
 }
 
@@ -25,6 +27,8 @@ type DataType struct {
 
 	schema string
 	kind   rmeta.DataTypeKind
+
+	required bool
 }
 
 func (d *DataType) Schema() string {
@@ -43,6 +47,10 @@ func (d *DataType) Kind() rmeta.DataTypeKind {
 	return d.kind
 }
 
+func (d *DataType) Required() bool {
+	return d.required
+}
+
 func (d *DataType) ToRAML() (string, error) {
 	panic("implement me")
 }
@@ -94,6 +102,11 @@ func (d *DataType) UnmarshalRAML(val *yaml.Node) error {
 func (d *DataType) marshal(out raml.AnyMap) error {
 	out.Put(rmeta.KeyType, d.schema)
 	d.hasExtra.out(out)
+
+	if !d.required {
+		out.Put(rmeta.KeyRequired, d.required)
+	}
+
 	return nil
 }
 
@@ -106,6 +119,8 @@ func (d *DataType) assign(key, val *yaml.Node) error {
 			d.schema = val.Value
 		}
 		return nil
+	case rmeta.KeyRequired:
+		return assign.AsBool(val, &d.required)
 	}
 
 	d.hasExtra.in(key, val)
diff --git a/v0/internal/raml/type-datatype-ext.go b/v0/internal/raml/type-datatype-ext.go
index 57053df..928617e 100644
--- a/v0/internal/raml/type-datatype-ext.go
+++ b/v0/internal/raml/type-datatype-ext.go
@@ -14,7 +14,6 @@ func NewExtendedDataType(kind rmeta.DataTypeKind, self concreteType) *ExtendedDa
 		DataType:       NewDataType(kind, self),
 		hasAnnotations: makeAnnotations(),
 		facets:         raml.NewFacetMap(0),
-		required:       true,
 	}
 }
 
@@ -26,7 +25,6 @@ type ExtendedDataType struct {
 	description *string
 	facets      raml.FacetMap
 	xml         raml.XML
-	required    bool
 }
 
 func (e *ExtendedDataType) DisplayName() option.String {
@@ -45,10 +43,6 @@ func (e *ExtendedDataType) XML() raml.XML {
 	return e.xml
 }
 
-func (e *ExtendedDataType) Required() bool {
-	return e.required
-}
-
 func (e *ExtendedDataType) marshal(out raml.AnyMap) error {
 	out.PutIfNotNil(rmeta.KeyDisplayName, e.displayName).
 		PutIfNotNil(rmeta.KeyDescription, e.description)
@@ -57,10 +51,6 @@ func (e *ExtendedDataType) marshal(out raml.AnyMap) error {
 		return err
 	}
 
-	if !e.required {
-		out.Put(rmeta.KeyRequired, e.required)
-	}
-
 	e.hasAnnotations.out(out)
 
 	if e.facets.Len() > 0 {
diff --git a/v0/internal/raml/x-gen-type-include.go b/v0/internal/raml/x-gen-type-include.go
index f559966..a6664ee 100644
--- a/v0/internal/raml/x-gen-type-include.go
+++ b/v0/internal/raml/x-gen-type-include.go
@@ -34,5 +34,9 @@ func (a IncludeType) marshal(out raml.AnyMap) error {
 	})
 	a.DataType.hasExtra.out(out)
 
+	if !a.required {
+		out.Put(rmeta.KeyRequired, a.required)
+	}
+
 	return nil
 }
-- 
2.43.0


From 058e1004093ed77e21708a914276e22df4487646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:46 +0000
Subject: [PATCH 09/44] fix: accept empty type declarations

An empty declaration is documented as allowed and means a string, but
the check for it never matched a YAML null.
---
 v0/internal/raml/fn-sorting-hat-type.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/v0/internal/raml/fn-sorting-hat-type.go b/v0/internal/raml/fn-sorting-hat-type.go
index a7b0b8b..ec01c09 100644
--- a/v0/internal/raml/fn-sorting-hat-type.go
+++ b/v0/internal/raml/fn-sorting-hat-type.go
@@ -50,7 +50,7 @@ func TypeSortingHat(val *yaml.Node) (out raml.DataType, err error) {
 		return out, nil
 	}
 
-	if util.IsNil(val) {
+	if util.IsNil(val) || xyml.IsNilType(val) {
 		return NewStringType(), nil
 	}
 
-- 
2.43.0


From 09661965d5503402ae3ba3c2150b83a802274104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:09 +0000
Subject: [PATCH 10/44] fix: accept includes in expanded type declarations

The type facet of a map declaration was recognised as an include and
then rejected for not being a string.
---
 v0/gen/type-m/base.tpl                 | 12 ++++++++++++
 v0/internal/raml/x-gen-type-include.go | 12 ++++++++++++
 2 files changed, 24 insertions(+)

diff --git a/v0/gen/type-m/base.tpl b/v0/gen/type-m/base.tpl
index cffa103..a17c95b 100644
--- a/v0/gen/type-m/base.tpl
+++ b/v0/gen/type-m/base.tpl
@@ -45,5 +45,17 @@ func (a {{.Name}}Type) marshal(out raml.AnyMap) error {
 
 	return nil
 }
+
+func (a *{{.Name}}Type) assign(key, val *yaml.Node) error {
+	switch key.Value {
+	case rmeta.KeyType, rmeta.KeySchema:
+		if val.Tag == "!include" {
+			a.schema = val.Value
+			return nil
+		}
+	}
+
+	return a.DataType.assign(key, val)
+}
 {{end}}
 {{end}}
\ No newline at end of file
diff --git a/v0/internal/raml/x-gen-type-include.go b/v0/internal/raml/x-gen-type-include.go
index a6664ee..2356ae7 100644
--- a/v0/internal/raml/x-gen-type-include.go
+++ b/v0/internal/raml/x-gen-type-include.go
@@ -40,3 +40,15 @@ func (a IncludeType) marshal(out raml.AnyMap) error {
 
 	return nil
 }
+
+func (a *IncludeType) assign(key, val *yaml.Node) error {
+	switch key.Value {
+	case rmeta.KeyType, rmeta.KeySchema:
+		if val.Tag == "!include" {
+			a.schema = val.Value
+			return nil
+		}
+	}
+
+	return a.DataType.assign(key, val)
+}
-- 
2.43.0


From ed86320efded057dc027f947091e4b8e296cb321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:31 +0000
Subject: [PATCH 11/44] fix: read the target of quoted includes

A quoted include kept its marker as part of the target, so that it was
written back as a doubled include.
---
 v0/gen/type-m/base.tpl                  | 6 ++++++
 v0/internal/raml/fn-sorting-hat-type.go | 2 +-
 v0/internal/raml/x-gen-type-include.go  | 6 ++++++
 3 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/v0/gen/type-m/base.tpl b/v0/gen/type-m/base.tpl
index a17c95b..c3a0b51 100644
--- a/v0/gen/type-m/base.tpl
+++ b/v0/gen/type-m/base.tpl
@@ -5,7 +5,9 @@ package raml
 import (
 	{{if eq .Name "Include" -}}
 	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml"
+	"github.com/Foxcapades/lib-go-yaml/v1/pkg/xyml"
 	"gopkg.in/yaml.v3"
+	"strings"
 
 {{- end}}
 	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml/rmeta"
@@ -53,6 +55,10 @@ func (a *{{.Name}}Type) assign(key, val *yaml.Node) error {
 			a.schema = val.Value
 			return nil
 		}
+		if xyml.IsString(val) {
+			a.schema = strings.TrimPrefix(val.Value, "!include ")
+			return nil
+		}
 	}
 
 	return a.DataType.assign(key, val)
diff --git a/v0/internal/raml/fn-sorting-hat-type.go b/v0/internal/raml/fn-sorting-hat-type.go
index ec01c09..006a330 100644
--- a/v0/internal/raml/fn-sorting-hat-type.go
+++ b/v0/internal/raml/fn-sorting-hat-type.go
@@ -91,7 +91,7 @@ func typeToKind(val string) concreteType {
 
 	if strings.HasPrefix(val, "!include ") {
 		out := NewIncludeType()
-		out.schema = val
+		out.schema = strings.TrimPrefix(val, "!include ")
 		return out
 	}
 
diff --git a/v0/internal/raml/x-gen-type-include.go b/v0/internal/raml/x-gen-type-include.go
index 2356ae7..5ed5e74 100644
--- a/v0/internal/raml/x-gen-type-include.go
+++ b/v0/internal/raml/x-gen-type-include.go
@@ -3,7 +3,9 @@ package raml
 import (
 	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml"
 	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml/rmeta"
+	"github.com/Foxcapades/lib-go-yaml/v1/pkg/xyml"
 	"gopkg.in/yaml.v3"
+	"strings"
 )
 
 // NewIncludeType returns a new internal implementation of
@@ -48,6 +50,10 @@ func (a *IncludeType) assign(key, val *yaml.Node) error {
 			a.schema = val.Value
 			return nil
 		}
+		if xyml.IsString(val) {
+			a.schema = strings.TrimPrefix(val.Value, "!include ")
+			return nil
+		}
 	}
 
 	return a.DataType.assign(key, val)
-- 
2.43.0


From 1910bd4e01a6b085b959314edae3517283c76eed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:24 +0000
Subject: [PATCH 12/44] fix: accept whole numbers in number facets

A number without a fraction is a valid value for minimum, maximum,
multipleOf, enum and the examples of numbers, but was rejected.
---
 v0/gen/example-m.tpl                  |  2 +-
 v0/gen/type-m/extended.tpl            |  2 +-
 v0/internal/raml/x-gen-ex-number.go   |  2 +-
 v0/internal/raml/x-gen-type-number.go |  2 +-
 v0/internal/util/assign/float64.go    | 12 +++++++++++-
 5 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/v0/gen/example-m.tpl b/v0/gen/example-m.tpl
index 5baef7e..eca357e 100644
--- a/v0/gen/example-m.tpl
+++ b/v0/gen/example-m.tpl
@@ -219,7 +219,7 @@ func (e *{{.Name}}Example) assignVal(val *yaml.Node) error {
 		e.value = &tmp
 	}
 	{{- else if eq .Type "float64" -}}
-	if tmp, err := xyml.ToFloat(val); err != nil {
+	if tmp, err := assign.ToFloat64(val); err != nil {
 		return err
 	} else {
 		e.value = &tmp
diff --git a/v0/gen/type-m/extended.tpl b/v0/gen/type-m/extended.tpl
index 221fcfd..74aa070 100644
--- a/v0/gen/type-m/extended.tpl
+++ b/v0/gen/type-m/extended.tpl
@@ -287,7 +287,7 @@ func (o *{{.Name}}Type) assign(key, val *yaml.Node) error {
 			{{else if eq .DefTypeName "Int64" -}}
 				if val, err := xyml.ToInt(cur, 10); err != nil {
 			{{else if eq .DefTypeName "Float64" -}}
-				if val, err := xyml.ToFloat(cur); err != nil {
+				if val, err := assign.ToFloat64(cur); err != nil {
 			{{- else -}}
 				if val, err := xyml.To{{.DefTypeName}}(cur); err != nil {
 			{{end}}
diff --git a/v0/internal/raml/x-gen-ex-number.go b/v0/internal/raml/x-gen-ex-number.go
index 739ae84..0b636d6 100644
--- a/v0/internal/raml/x-gen-ex-number.go
+++ b/v0/internal/raml/x-gen-ex-number.go
@@ -192,7 +192,7 @@ func (e *NumberExample) expand() bool {
 }
 
 func (e *NumberExample) assignVal(val *yaml.Node) error {
-	if tmp, err := xyml.ToFloat(val); err != nil {
+	if tmp, err := assign.ToFloat64(val); err != nil {
 		return err
 	} else {
 		e.value = &tmp
diff --git a/v0/internal/raml/x-gen-type-number.go b/v0/internal/raml/x-gen-type-number.go
index 85f9df8..fcc1a38 100644
--- a/v0/internal/raml/x-gen-type-number.go
+++ b/v0/internal/raml/x-gen-type-number.go
@@ -278,7 +278,7 @@ func (o *NumberType) assign(key, val *yaml.Node) error {
 		return UnmarshalNumberExampleMapRAML(o.examples, val)
 	case rmeta.KeyEnum:
 		return xyml.SequenceForEach(val, func(cur *yaml.Node) error {
-			if val, err := xyml.ToFloat(cur); err != nil {
+			if val, err := assign.ToFloat64(cur); err != nil {
 				return err
 			} else {
 				o.enum = append(o.enum, val)
diff --git a/v0/internal/util/assign/float64.go b/v0/internal/util/assign/float64.go
index 0289d91..a5a93ac 100644
--- a/v0/internal/util/assign/float64.go
+++ b/v0/internal/util/assign/float64.go
@@ -5,8 +5,18 @@ import (
 	"gopkg.in/yaml.v3"
 )
 
+// ToFloat64 reads any YAML number, written with a fraction or not.
+func ToFloat64(v *yaml.Node) (float64, error) {
+	if xyml.IsInt(v) {
+		val, err := xyml.ToInt(v, 10)
+		return float64(val), err
+	}
+
+	return xyml.ToFloat(v)
+}
+
 func AsFloat64Ptr(v *yaml.Node, ptr **float64) error {
-	if val, err := xyml.ToFloat(v); err != nil {
+	if val, err := ToFloat64(v); err != nil {
 		return err
 	} else {
 		*ptr = &val
-- 
2.43.0


From f7df2e0384b30ba80d3a45ce7bd705233a8d3864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:00 +0000
Subject: [PATCH 13/44] fix: write numbers without rounding them

Floating point values were written with ten significant digits, and
whole numbers only with an explicit float tag.
---
 v0/gen/example-m.tpl                      |  3 +-
 v0/internal/raml/x-gen-ex-any.go          |  3 +-
 v0/internal/raml/x-gen-ex-array.go        |  3 +-
 v0/internal/raml/x-gen-ex-bool.go         |  3 +-
 v0/internal/raml/x-gen-ex-custom.go       |  3 +-
 v0/internal/raml/x-gen-ex-dateonly.go     |  3 +-
 v0/internal/raml/x-gen-ex-datetime.go     |  3 +-
 v0/internal/raml/x-gen-ex-datetimeonly.go |  3 +-
 v0/internal/raml/x-gen-ex-file.go         |  3 +-
 v0/internal/raml/x-gen-ex-integer.go      |  3 +-
 v0/internal/raml/x-gen-ex-number.go       |  3 +-
 v0/internal/raml/x-gen-ex-object.go       |  3 +-
 v0/internal/raml/x-gen-ex-string.go       |  3 +-
 v0/internal/raml/x-gen-ex-timeonly.go     |  3 +-
 v0/internal/raml/x-gen-ex-union.go        |  3 +-
 v0/internal/util/yaml.go                  | 79 +++++++++++++++++++++++
 v0/pkg/raml/AnyMap.go                     |  5 +-
 v0/pkg/raml/UntypedMap.go                 |  5 +-
 18 files changed, 115 insertions(+), 19 deletions(-)
 create mode 100644 v0/internal/util/yaml.go

diff --git a/v0/gen/example-m.tpl b/v0/gen/example-m.tpl
index eca357e..49af3fb 100644
--- a/v0/gen/example-m.tpl
+++ b/v0/gen/example-m.tpl
@@ -4,6 +4,7 @@ package raml
 
 import (
 	"github.com/Foxcapades/goop/v1/pkg/option"
+	"github.com/Foxcapades/lib-go-raml/v0/internal/util"
 	"github.com/Foxcapades/lib-go-raml/v0/internal/util/assign"
 	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml"
 	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml/rmeta"
@@ -115,7 +116,7 @@ func (e {{.Name}}Example) ToYAML() (*yaml.Node, error) {
 	if short, err := e.MarshalRAML(out); err != nil {
 		return nil, err
 	} else if short {
-		return xyml.ToYamlNode(e.value)
+		return util.ToYamlNode(e.value)
 	}
 	return out.ToYAML()
 }
diff --git a/v0/internal/raml/x-gen-ex-any.go b/v0/internal/raml/x-gen-ex-any.go
index 17ff69f..7f51662 100644
--- a/v0/internal/raml/x-gen-ex-any.go
+++ b/v0/internal/raml/x-gen-ex-any.go
@@ -2,6 +2,7 @@ package raml
 
 import (
 	"github.com/Foxcapades/goop/v1/pkg/option"
+	"github.com/Foxcapades/lib-go-raml/v0/internal/util"
 	"github.com/Foxcapades/lib-go-raml/v0/internal/util/assign"
 	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml"
 	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml/rmeta"
@@ -109,7 +110,7 @@ func (e AnyExample) ToYAML() (*yaml.Node, error) {
 	if short, err := e.MarshalRAML(out); err != nil {
 		return nil, err
 	} else if short {
-		return xyml.ToYamlNode(e.value)
+		return util.ToYamlNode(e.value)
 	}
 	return out.ToYAML()
 }
diff --git a/v0/internal/raml/x-gen-ex-array.go b/v0/internal/raml/x-gen-ex-array.go
index 79d4048..b3a47d8 100644
--- a/v0/internal/raml/x-gen-ex-array.go
+++ b/v0/internal/raml/x-gen-ex-array.go
@@ -2,6 +2,7 @@ package raml
 
 import (
 	"github.com/Foxcapades/goop/v1/pkg/option"
+	"github.com/Foxcapades/lib-go-raml/v0/internal/util"
 	"github.com/Foxcapades/lib-go-raml/v0/internal/util/assign"
 	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml"
 	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml/rmeta"
@@ -109,7 +110,7 @@ func (e ArrayExample) ToYAML() (*yaml.Node, error) {
 	if short, err := e.MarshalRAML(out); err != nil {
 		return nil, err
 	} else if short {
-		return xyml.ToYamlNode(e.value)
+		return util.ToYamlNode(e.value)
 	}
 	return out.ToYAML()
 }
diff --git a/v0/internal/raml/x-gen-ex-bool.go b/v0/internal/raml/x-gen-ex-bool.go
index c1abc17..1a45600 100644
--- a/v0/internal/raml/x-gen-ex-bool.go
+++ b/v0/internal/raml/x-gen-ex-bool.go
@@ -2,6 +2,7 @@ package raml
 
 import (
 	"github.com/Foxcapades/goop/v1/pkg/option"
+	"github.com/Foxcapades/lib-go-raml/v0/internal/util"
 	"github.com/Foxcapades/lib-go-raml/v0/internal/util/assign"
 	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml"
 	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml/rmeta"
@@ -109,7 +110,7 @@ func (e BoolExample) ToYAML() (*yaml.Node, error) {
 	if short, err := e.MarshalRAML(out); err != nil {
 		return nil, err
 	} else if short {
-		return xyml.ToYamlNode(e.value)
+		return util.ToYamlNode(e.value)
 	}
 	return out.ToYAML()
 }
diff --git a/v0/internal/raml/x-gen-ex-custom.go b/v0/internal/raml/x-gen-ex-custom.go
index 2252878..016f879 100644
--- a/v0/internal/raml/x-gen-ex-custom.go
+++ b/v0/internal/raml/x-gen-ex-custom.go
@@ -2,6 +2,7 @@ package raml
 
 import (
 	"github.com/Foxcapades/goop/v1/pkg/option"
+	"github.com/Foxcapades/lib-go-raml/v0/internal/util"
 	"github.com/Foxcapades/lib-go-raml/v0/internal/util/assign"
 	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml"
 	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml/rmeta"
@@ -109,7 +110,7 @@ func (e CustomExample) ToYAML() (*yaml.Node, error) {
 	if short, err := e.MarshalRAML(out); err != nil {
 		return nil, err
 	} else if short {
-		return xyml.ToYamlNode(e.value)
+		return util.ToYamlNode(e.value)
 	}
 	return out.ToYAML()
 }
diff --git a/v0/internal/raml/x-gen-ex-dateonly.go b/v0/internal/raml/x-gen-ex-dateonly.go
index 0fc6524..2058eeb 100644
--- a/v0/internal/raml/x-gen-ex-dateonly.go
+++ b/v0/internal/raml/x-gen-ex-dateonly.go
@@ -2,6 +2,7 @@ package raml
 
 import (
 	"github.com/Foxcapades/goop/v1/pkg/option"
+	"github.com/Foxcapades/lib-go-raml/v0/internal/util"
 	"github.com/Foxcapades/lib-go-raml/v0/internal/util/assign"
 	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml"
 	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml/rmeta"
@@ -109,7 +110,7 @@ func (e DateOnlyExample) ToYAML() (*yaml.Node, error) {
 	if short, err := e.MarshalRAML(out); err != nil {
 		return nil, err
 	} else if short {
-		return xyml.ToYamlNode(e.value)
+		return util.ToYamlNode(e.value)
 	}
 	return out.ToYAML()
 }
diff --git a/v0/internal/raml/x-gen-ex-datetime.go b/v0/internal/raml/x-gen-ex-datetime.go
index c49a94c..38876ca 100644
--- a/v0/internal/raml/x-gen-ex-datetime.go
+++ b/v0/internal/raml/x-gen-ex-datetime.go
@@ -2,6 +2,7 @@ package raml
 
 import (
 	"github.com/Foxcapades/goop/v1/pkg/option"
+	"github.com/Foxcapades/lib-go-raml/v0/internal/util"
 	"github.com/Foxcapades/lib-go-raml/v0/internal/util/assign"
 	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml"
 	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml/rmeta"
@@ -109,7 +110,7 @@ func (e DatetimeExample) ToYAML() (*yaml.Node, error) {
 	if short, err := e.MarshalRAML(out); err != nil {
 		return nil, err
 	} else if short {
-		return xyml.ToYamlNode(e.value)
+		return util.ToYamlNode(e.value)
 	}
 	return out.ToYAML()
 }
diff --git a/v0/internal/raml/x-gen-ex-datetimeonly.go b/v0/internal/raml/x-gen-ex-datetimeonly.go
index 9ff5a3b..f0f3c03 100644
--- a/v0/internal/raml/x-gen-ex-datetimeonly.go
+++ b/v0/internal/raml/x-gen-ex-datetimeonly.go
@@ -2,6 +2,7 @@ package raml
 
 import (
 	"github.com/Foxcapades/goop/v1/pkg/option"
+	"github.com/Foxcapades/lib-go-raml/v0/internal/util"
 	"github.com/Foxcapades/lib-go-raml/v0/internal/util/assign"
 	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml"
 	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml/rmeta"
@@ -109,7 +110,7 @@ func (e DatetimeOnlyExample) ToYAML() (*yaml.Node, error) {
 	if short, err := e.MarshalRAML(out); err != nil {
 		return nil, err
 	} else if short {
-		return xyml.ToYamlNode(e.value)
+		return util.ToYamlNode(e.value)
 	}
 	return out.ToYAML()
 }
diff --git a/v0/internal/raml/x-gen-ex-file.go b/v0/internal/raml/x-gen-ex-file.go
index dc6995c..6d30690 100644
--- a/v0/internal/raml/x-gen-ex-file.go
+++ b/v0/internal/raml/x-gen-ex-file.go
@@ -2,6 +2,7 @@ package raml
 
 import (
 	"github.com/Foxcapades/goop/v1/pkg/option"
+	"github.com/Foxcapades/lib-go-raml/v0/internal/util"
 	"github.com/Foxcapades/lib-go-raml/v0/internal/util/assign"
 	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml"
 	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml/rmeta"
@@ -109,7 +110,7 @@ func (e FileExample) ToYAML() (*yaml.Node, error) {
 	if short, err := e.MarshalRAML(out); err != nil {
 		return nil, err
 	} else if short {
-		return xyml.ToYamlNode(e.value)
+		return util.ToYamlNode(e.value)
 	}
 	return out.ToYAML()
 }
diff --git a/v0/internal/raml/x-gen-ex-integer.go b/v0/internal/raml/x-gen-ex-integer.go
index c9c17f4..166103d 100644
--- a/v0/internal/raml/x-gen-ex-integer.go
+++ b/v0/internal/raml/x-gen-ex-integer.go
@@ -2,6 +2,7 @@ package raml
 
 import (
 	"github.com/Foxcapades/goop/v1/pkg/option"
+	"github.com/Foxcapades/lib-go-raml/v0/internal/util"
 	"github.com/Foxcapades/lib-go-raml/v0/internal/util/assign"
 	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml"
 	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml/rmeta"
@@ -109,7 +110,7 @@ func (e IntegerExample) ToYAML() (*yaml.Node, error) {
 	if short, err := e.MarshalRAML(out); err != nil {
 		return nil, err
 	} else if short {
-		return xyml.ToYamlNode(e.value)
+		return util.ToYamlNode(e.value)
 	}
 	return out.ToYAML()
 }
diff --git a/v0/internal/raml/x-gen-ex-number.go b/v0/internal/raml/x-gen-ex-number.go
index 0b636d6..200f51d 100644
--- a/v0/internal/raml/x-gen-ex-number.go
+++ b/v0/internal/raml/x-gen-ex-number.go
@@ -2,6 +2,7 @@ package raml
 
 import (
 	"github.com/Foxcapades/goop/v1/pkg/option"
+	"github.com/Foxcapades/lib-go-raml/v0/internal/util"
 	"github.com/Foxcapades/lib-go-raml/v0/internal/util/assign"
 	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml"
 	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml/rmeta"
@@ -109,7 +110,7 @@ func (e NumberExample) ToYAML() (*yaml.Node, error) {
 	if short, err := e.MarshalRAML(out); err != nil {
 		return nil, err
 	} else if short {
-		return xyml.ToYamlNode(e.value)
+		return util.ToYamlNode(e.value)
 	}
 	return out.ToYAML()
 }
diff --git a/v0/internal/raml/x-gen-ex-object.go b/v0/internal/raml/x-gen-ex-object.go
index 7dcefd6..a844e4d 100644
--- a/v0/internal/raml/x-gen-ex-object.go
+++ b/v0/internal/raml/x-gen-ex-object.go
@@ -2,6 +2,7 @@ package raml
 
 import (
 	"github.com/Foxcapades/goop/v1/pkg/option"
+	"github.com/Foxcapades/lib-go-raml/v0/internal/util"
 	"github.com/Foxcapades/lib-go-raml/v0/internal/util/assign"
 	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml"
 	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml/rmeta"
@@ -109,7 +110,7 @@ func (e ObjectExample) ToYAML() (*yaml.Node, error) {
 	if short, err := e.MarshalRAML(out); err != nil {
 		return nil, err
 	} else if short {
-		return xyml.ToYamlNode(e.value)
+		return util.ToYamlNode(e.value)
 	}
 	return out.ToYAML()
 }
diff --git a/v0/internal/raml/x-gen-ex-string.go b/v0/internal/raml/x-gen-ex-string.go
index d61cb4c..e070113 100644
--- a/v0/internal/raml/x-gen-ex-string.go
+++ b/v0/internal/raml/x-gen-ex-string.go
@@ -2,6 +2,7 @@ package raml
 
 import (
 	"github.com/Foxcapades/goop/v1/pkg/option"
+	"github.com/Foxcapades/lib-go-raml/v0/internal/util"
 	"github.com/Foxcapades/lib-go-raml/v0/internal/util/assign"
 	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml"
 	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml/rmeta"
@@ -109,7 +110,7 @@ func (e StringExample) ToYAML() (*yaml.Node, error) {
 	if short, err := e.MarshalRAML(out); err != nil {
 		return nil, err
 	} else if short {
-		return xyml.ToYamlNode(e.value)
+		return util.ToYamlNode(e.value)
 	}
 	return out.ToYAML()
 }
diff --git a/v0/internal/raml/x-gen-ex-timeonly.go b/v0/internal/raml/x-gen-ex-timeonly.go
index ee1d938..496676d 100644
--- a/v0/internal/raml/x-gen-ex-timeonly.go
+++ b/v0/internal/raml/x-gen-ex-timeonly.go
@@ -2,6 +2,7 @@ package raml
 
 import (
 	"github.com/Foxcapades/goop/v1/pkg/option"
+	"github.com/Foxcapades/lib-go-raml/v0/internal/util"
 	"github.com/Foxcapades/lib-go-raml/v0/internal/util/assign"
 	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml"
 	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml/rmeta"
@@ -109,7 +110,7 @@ func (e TimeOnlyExample) ToYAML() (*yaml.Node, error) {
 	if short, err := e.MarshalRAML(out); err != nil {
 		return nil, err
 	} else if short {
-		return xyml.ToYamlNode(e.value)
+		return util.ToYamlNode(e.value)
 	}
 	return out.ToYAML()
 }
diff --git a/v0/internal/raml/x-gen-ex-union.go b/v0/internal/raml/x-gen-ex-union.go
index f311d12..f2946f6 100644
--- a/v0/internal/raml/x-gen-ex-union.go
+++ b/v0/internal/raml/x-gen-ex-union.go
@@ -2,6 +2,7 @@ package raml
 
 import (
 	"github.com/Foxcapades/goop/v1/pkg/option"
+	"github.com/Foxcapades/lib-go-raml/v0/internal/util"
 	"github.com/Foxcapades/lib-go-raml/v0/internal/util/assign"
 	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml"
 	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml/rmeta"
@@ -109,7 +110,7 @@ func (e UnionExample) ToYAML() (*yaml.Node, error) {
 	if short, err := e.MarshalRAML(out); err != nil {
 		return nil, err
 	} else if short {
-		return xyml.ToYamlNode(e.value)
+		return util.ToYamlNode(e.value)
 	}
 	return out.ToYAML()
 }
diff --git a/v0/internal/util/yaml.go b/v0/internal/util/yaml.go
new file mode 100644
index 0000000..942e89d
--- /dev/null
+++ b/v0/internal/util/yaml.go
@@ -0,0 +1,79 @@
+package util
+
+import (
+	"reflect"
+	"strconv"
+	"strings"
+
+	"github.com/Foxcapades/lib-go-yaml/v1/pkg/xyml"
+	"gopkg.in/yaml.v3"
+)
+
+// MapAppend does the same as xyml.MapAppend but keeps the full precision of
+// floating point values.
+func MapAppend(y *yaml.Node, k, v interface{}) error {
+	key, err := ToYamlNode(k)
+	if err != nil {
+		return err
+	}
+
+	val, err := ToYamlNode(v)
+	if err != nil {
+		return err
+	}
+
+	return xyml.MapAppendNode(y, key, val)
+}
+
+// ToYamlNode does the same as xyml.ToYamlNode but keeps the full precision of
+// floating point values.
+func ToYamlNode(val interface{}) (*yaml.Node, error) {
+	switch val.(type) {
+	case nil, *yaml.Node, xyml.Marshaler:
+		return xyml.ToYamlNode(val)
+	}
+
+	ref := reflect.ValueOf(val)
+
+	switch ref.Kind() {
+	case reflect.Float32:
+		return floatToYamlNode(ref.Float(), 32), nil
+	case reflect.Float64:
+		return floatToYamlNode(ref.Float(), 64), nil
+	case reflect.Array, reflect.Slice:
+		out := xyml.NewSequenceNode(ref.Len())
+		for i := 0; i < ref.Len(); i++ {
+			cur, err := ToYamlNode(ref.Index(i).Interface())
+			if err != nil {
+				return nil, err
+			}
+			out.Content = append(out.Content, cur)
+		}
+		return out, nil
+	case reflect.Map:
+		out := xyml.NewMapNode(ref.Len())
+		for it := ref.MapRange(); it.Next(); {
+			if err := MapAppend(out, it.Key().Interface(), it.Value().Interface()); err != nil {
+				return nil, err
+			}
+		}
+		return out, nil
+	case reflect.Ptr:
+		if !ref.IsNil() {
+			return ToYamlNode(ref.Elem().Interface())
+		}
+	}
+
+	return xyml.ToYamlNode(val)
+}
+
+func floatToYamlNode(val float64, bits int) *yaml.Node {
+	str := strconv.FormatFloat(val, 'g', -1, bits)
+
+	// Keep whole numbers recognizable as floats.
+	if strings.Trim(str, "-0123456789") == "" {
+		str += ".0"
+	}
+
+	return &yaml.Node{Kind: yaml.ScalarNode, Tag: xyml.TagFloat, Value: str}
+}
diff --git a/v0/pkg/raml/AnyMap.go b/v0/pkg/raml/AnyMap.go
index 660c472..4b96fbf 100644
--- a/v0/pkg/raml/AnyMap.go
+++ b/v0/pkg/raml/AnyMap.go
@@ -6,6 +6,7 @@ import (
 
 	"github.com/Foxcapades/gomp/v1/pkg/gomp"
 	"github.com/Foxcapades/goop/v1/pkg/option"
+	"github.com/Foxcapades/lib-go-raml/v0/internal/util"
 	"github.com/Foxcapades/lib-go-yaml/v1/pkg/xyml"
 	"gopkg.in/yaml.v3"
 )
@@ -134,7 +135,7 @@ func (i implAnyMap) ToYAML() (*yaml.Node, error) {
 
 		for j := range i.ordered {
 			tmp := xyml.NewMapNode(1)
-			if e := xyml.MapAppend(tmp, i.ordered[j].Key, i.ordered[j].Val); e != nil {
+			if e := util.MapAppend(tmp, i.ordered[j].Key, i.ordered[j].Val); e != nil {
 				return nil, e
 			}
 			if err := xyml.SequenceAppend(out, tmp); err != nil {
@@ -148,7 +149,7 @@ func (i implAnyMap) ToYAML() (*yaml.Node, error) {
 	out := xyml.NewMapNode(i.Len())
 
 	for j := range i.ordered {
-		if e := xyml.MapAppend(out, i.ordered[j].Key, i.ordered[j].Val); e != nil {
+		if e := util.MapAppend(out, i.ordered[j].Key, i.ordered[j].Val); e != nil {
 			return nil, e
 		}
 	}
diff --git a/v0/pkg/raml/UntypedMap.go b/v0/pkg/raml/UntypedMap.go
index ca9844f..2725cf4 100644
--- a/v0/pkg/raml/UntypedMap.go
+++ b/v0/pkg/raml/UntypedMap.go
@@ -6,6 +6,7 @@ import (
 
 	"github.com/Foxcapades/gomp/v1/pkg/gomp"
 	"github.com/Foxcapades/goop/v1/pkg/option"
+	"github.com/Foxcapades/lib-go-raml/v0/internal/util"
 	"github.com/Foxcapades/lib-go-yaml/v1/pkg/xyml"
 	"gopkg.in/yaml.v3"
 )
@@ -134,7 +135,7 @@ func (i implUntypedMap) ToYAML() (*yaml.Node, error) {
 
 		for j := range i.ordered {
 			tmp := xyml.NewMapNode(1)
-			if e := xyml.MapAppend(tmp, i.ordered[j].Key, i.ordered[j].Val); e != nil {
+			if e := util.MapAppend(tmp, i.ordered[j].Key, i.ordered[j].Val); e != nil {
 				return nil, e
 			}
 			if err := xyml.SequenceAppend(out, tmp); err != nil {
@@ -148,7 +149,7 @@ func (i implUntypedMap) ToYAML() (*yaml.Node, error) {
 	out := xyml.NewMapNode(i.Len())
 
 	for j := range i.ordered {
-		if e := xyml.MapAppend(out, i.ordered[j].Key, i.ordered[j].Val); e != nil {
+		if e := util.MapAppend(out, i.ordered[j].Key, i.ordered[j].Val); e != nil {
 			return nil, e
 		}
 	}
-- 
2.43.0


From 8e8a5ce81d54ab1b40388edbf786635ba1317a5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:21 +0000
Subject: [PATCH 14/44] fix: reject negative lengths and counts

Negative values of unsigned facets such as minLength or maxItems wrapped
around to huge positive ones.
---
 v0/internal/util/assign/uint.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/v0/internal/util/assign/uint.go b/v0/internal/util/assign/uint.go
index 98a2d8c..052e650 100644
--- a/v0/internal/util/assign/uint.go
+++ b/v0/internal/util/assign/uint.go
@@ -1,14 +1,19 @@
 package assign
 
 import (
+	"fmt"
 	"github.com/Foxcapades/lib-go-yaml/v1/pkg/xyml"
 	"gopkg.in/yaml.v3"
 )
 
+const errNegative = "expected a non-negative number, instead got %d @ %d:%d"
+
 // Helper function for uint values in assign functions
 func ToUint(v *yaml.Node, ptr *uint) error {
 	if val, err := xyml.ToInt(v, 10); err != nil {
 		return err
+	} else if val < 0 {
+		return fmt.Errorf(errNegative, val, v.Line, v.Column)
 	} else {
 		*ptr = uint(val)
 	}
@@ -20,6 +25,8 @@ func ToUint(v *yaml.Node, ptr *uint) error {
 func AsUintPtr(v *yaml.Node, ptr **uint) error {
 	if val, err := xyml.ToInt(v, 10); err != nil {
 		return err
+	} else if val < 0 {
+		return fmt.Errorf(errNegative, val, v.Line, v.Column)
 	} else {
 		tmp := uint(val)
 		*ptr = &tmp
-- 
2.43.0


From 17a10551ce84f7d390638177a84a529da2b040c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:50 +0000
Subject: [PATCH 15/44] fix: do not panic on empty keys

An empty string is a legal YAML key, looking for the annotation or
resource marker in it indexed out of range.
---
 v0/gen/example-m.tpl                      | 2 +-
 v0/internal/raml/APISpec.go               | 4 ++--
 v0/internal/raml/Library.go               | 2 +-
 v0/internal/raml/in-components.go         | 2 +-
 v0/internal/raml/x-gen-ex-any.go          | 2 +-
 v0/internal/raml/x-gen-ex-array.go        | 2 +-
 v0/internal/raml/x-gen-ex-bool.go         | 2 +-
 v0/internal/raml/x-gen-ex-custom.go       | 2 +-
 v0/internal/raml/x-gen-ex-dateonly.go     | 2 +-
 v0/internal/raml/x-gen-ex-datetime.go     | 2 +-
 v0/internal/raml/x-gen-ex-datetimeonly.go | 2 +-
 v0/internal/raml/x-gen-ex-file.go         | 2 +-
 v0/internal/raml/x-gen-ex-integer.go      | 2 +-
 v0/internal/raml/x-gen-ex-number.go       | 2 +-
 v0/internal/raml/x-gen-ex-object.go       | 2 +-
 v0/internal/raml/x-gen-ex-string.go       | 2 +-
 v0/internal/raml/x-gen-ex-timeonly.go     | 2 +-
 v0/internal/raml/x-gen-ex-union.go        | 2 +-
 18 files changed, 19 insertions(+), 19 deletions(-)

diff --git a/v0/gen/example-m.tpl b/v0/gen/example-m.tpl
index 49af3fb..b0453d8 100644
--- a/v0/gen/example-m.tpl
+++ b/v0/gen/example-m.tpl
@@ -160,7 +160,7 @@ func (e *{{.Name}}Example) assign(key, val *yaml.Node) error {
 		return nil
 	}
 
-	if key.Value[0] == '(' {
+	if key.Value != "" && key.Value[0] == '(' {
 		tmp := NewAnnotation()
 		if err := UnmarshalUntypedMapRAML(tmp, val); err != nil {
 			return err
diff --git a/v0/internal/raml/APISpec.go b/v0/internal/raml/APISpec.go
index c361b69..3900945 100644
--- a/v0/internal/raml/APISpec.go
+++ b/v0/internal/raml/APISpec.go
@@ -379,7 +379,7 @@ func (a *APISpec) assign(k, v *yaml.Node) error {
 		return nil
 	}
 
-	if k.Value[0] == '(' {
+	if k.Value != "" && k.Value[0] == '(' {
 		tmp := raml.NewUntypedMap(len(v.Content) / 2)
 		if err := UnmarshalUntypedMapRAML(tmp, v); err != nil {
 			return err
@@ -388,7 +388,7 @@ func (a *APISpec) assign(k, v *yaml.Node) error {
 		return nil
 	}
 
-	if k.Value[0] == '/' {
+	if k.Value != "" && k.Value[0] == '/' {
 		a.resources.Put(k.Value, v)
 		return nil
 	}
diff --git a/v0/internal/raml/Library.go b/v0/internal/raml/Library.go
index dc1be5e..a2c8417 100644
--- a/v0/internal/raml/Library.go
+++ b/v0/internal/raml/Library.go
@@ -227,7 +227,7 @@ func (l *Library) assign(k, v *yaml.Node) error {
 		return UnmarshalUntypedMapRAML(l.securitySchemes, v)
 	}
 
-	if xyml.IsString(k) && k.Value[0] == '(' {
+	if xyml.IsString(k) && k.Value != "" && k.Value[0] == '(' {
 		tmp := raml.NewUntypedMap(len(v.Content) / 2)
 		if err := UnmarshalUntypedMapRAML(tmp, v); err != nil {
 			return err
diff --git a/v0/internal/raml/in-components.go b/v0/internal/raml/in-components.go
index 62b84b1..f29819b 100644
--- a/v0/internal/raml/in-components.go
+++ b/v0/internal/raml/in-components.go
@@ -24,7 +24,7 @@ func (h *hasAnnotations) out(out raml.AnyMap) {
 }
 
 func (h *hasAnnotations) in(k string, v *yaml.Node) (bool, error) {
-	if k[0] != '(' {
+	if k == "" || k[0] != '(' {
 		return false, nil
 	}
 
diff --git a/v0/internal/raml/x-gen-ex-any.go b/v0/internal/raml/x-gen-ex-any.go
index 7f51662..1feb42c 100644
--- a/v0/internal/raml/x-gen-ex-any.go
+++ b/v0/internal/raml/x-gen-ex-any.go
@@ -154,7 +154,7 @@ func (e *AnyExample) assign(key, val *yaml.Node) error {
 		return nil
 	}
 
-	if key.Value[0] == '(' {
+	if key.Value != "" && key.Value[0] == '(' {
 		tmp := NewAnnotation()
 		if err := UnmarshalUntypedMapRAML(tmp, val); err != nil {
 			return err
diff --git a/v0/internal/raml/x-gen-ex-array.go b/v0/internal/raml/x-gen-ex-array.go
index b3a47d8..7ae7cfc 100644
--- a/v0/internal/raml/x-gen-ex-array.go
+++ b/v0/internal/raml/x-gen-ex-array.go
@@ -154,7 +154,7 @@ func (e *ArrayExample) assign(key, val *yaml.Node) error {
 		return nil
 	}
 
-	if key.Value[0] == '(' {
+	if key.Value != "" && key.Value[0] == '(' {
 		tmp := NewAnnotation()
 		if err := UnmarshalUntypedMapRAML(tmp, val); err != nil {
 			return err
diff --git a/v0/internal/raml/x-gen-ex-bool.go b/v0/internal/raml/x-gen-ex-bool.go
index 1a45600..0804a64 100644
--- a/v0/internal/raml/x-gen-ex-bool.go
+++ b/v0/internal/raml/x-gen-ex-bool.go
@@ -154,7 +154,7 @@ func (e *BoolExample) assign(key, val *yaml.Node) error {
 		return nil
 	}
 
-	if key.Value[0] == '(' {
+	if key.Value != "" && key.Value[0] == '(' {
 		tmp := NewAnnotation()
 		if err := UnmarshalUntypedMapRAML(tmp, val); err != nil {
 			return err
diff --git a/v0/internal/raml/x-gen-ex-custom.go b/v0/internal/raml/x-gen-ex-custom.go
index 016f879..2e760f5 100644
--- a/v0/internal/raml/x-gen-ex-custom.go
+++ b/v0/internal/raml/x-gen-ex-custom.go
@@ -154,7 +154,7 @@ func (e *CustomExample) assign(key, val *yaml.Node) error {
 		return nil
 	}
 
-	if key.Value[0] == '(' {
+	if key.Value != "" && key.Value[0] == '(' {
 		tmp := NewAnnotation()
 		if err := UnmarshalUntypedMapRAML(tmp, val); err != nil {
 			return err
diff --git a/v0/internal/raml/x-gen-ex-dateonly.go b/v0/internal/raml/x-gen-ex-dateonly.go
index 2058eeb..f999b1f 100644
--- a/v0/internal/raml/x-gen-ex-dateonly.go
+++ b/v0/internal/raml/x-gen-ex-dateonly.go
@@ -154,7 +154,7 @@ func (e *DateOnlyExample) assign(key, val *yaml.Node) error {
 		return nil
 	}
 
-	if key.Value[0] == '(' {
+	if key.Value != "" && key.Value[0] == '(' {
 		tmp := NewAnnotation()
 		if err := UnmarshalUntypedMapRAML(tmp, val); err != nil {
 			return err
diff --git a/v0/internal/raml/x-gen-ex-datetime.go b/v0/internal/raml/x-gen-ex-datetime.go
index 38876ca..45921b0 100644
--- a/v0/internal/raml/x-gen-ex-datetime.go
+++ b/v0/internal/raml/x-gen-ex-datetime.go
@@ -154,7 +154,7 @@ func (e *DatetimeExample) assign(key, val *yaml.Node) error {
 		return nil
 	}
 
-	if key.Value[0] == '(' {
+	if key.Value != "" && key.Value[0] == '(' {
 		tmp := NewAnnotation()
 		if err := UnmarshalUntypedMapRAML(tmp, val); err != nil {
 			return err
diff --git a/v0/internal/raml/x-gen-ex-datetimeonly.go b/v0/internal/raml/x-gen-ex-datetimeonly.go
index f0f3c03..546e5f1 100644
--- a/v0/internal/raml/x-gen-ex-datetimeonly.go
+++ b/v0/internal/raml/x-gen-ex-datetimeonly.go
@@ -154,7 +154,7 @@ func (e *DatetimeOnlyExample) assign(key, val *yaml.Node) error {
 		return nil
 	}
 
-	if key.Value[0] == '(' {
+	if key.Value != "" && key.Value[0] == '(' {
 		tmp := NewAnnotation()
 		if err := UnmarshalUntypedMapRAML(tmp, val); err != nil {
 			return err
diff --git a/v0/internal/raml/x-gen-ex-file.go b/v0/internal/raml/x-gen-ex-file.go
index 6d30690..a33045c 100644
--- a/v0/internal/raml/x-gen-ex-file.go
+++ b/v0/internal/raml/x-gen-ex-file.go
@@ -154,7 +154,7 @@ func (e *FileExample) assign(key, val *yaml.Node) error {
 		return nil
 	}
 
-	if key.Value[0] == '(' {
+	if key.Value != "" && key.Value[0] == '(' {
 		tmp := NewAnnotation()
 		if err := UnmarshalUntypedMapRAML(tmp, val); err != nil {
 			return err
diff --git a/v0/internal/raml/x-gen-ex-integer.go b/v0/internal/raml/x-gen-ex-integer.go
index 166103d..3f4f86b 100644
--- a/v0/internal/raml/x-gen-ex-integer.go
+++ b/v0/internal/raml/x-gen-ex-integer.go
@@ -154,7 +154,7 @@ func (e *IntegerExample) assign(key, val *yaml.Node) error {
 		return nil
 	}
 
-	if key.Value[0] == '(' {
+	if key.Value != "" && key.Value[0] == '(' {
 		tmp := NewAnnotation()
 		if err := UnmarshalUntypedMapRAML(tmp, val); err != nil {
 			return err
diff --git a/v0/internal/raml/x-gen-ex-number.go b/v0/internal/raml/x-gen-ex-number.go
index 200f51d..8337852 100644
--- a/v0/internal/raml/x-gen-ex-number.go
+++ b/v0/internal/raml/x-gen-ex-number.go
@@ -154,7 +154,7 @@ func (e *NumberExample) assign(key, val *yaml.Node) error {
 		return nil
 	}
 
-	if key.Value[0] == '(' {
+	if key.Value != "" && key.Value[0] == '(' {
 		tmp := NewAnnotation()
 		if err := UnmarshalUntypedMapRAML(tmp, val); err != nil {
 			return err
diff --git a/v0/internal/raml/x-gen-ex-object.go b/v0/internal/raml/x-gen-ex-object.go
index a844e4d..333dbe8 100644
--- a/v0/internal/raml/x-gen-ex-object.go
+++ b/v0/internal/raml/x-gen-ex-object.go
@@ -154,7 +154,7 @@ func (e *ObjectExample) assign(key, val *yaml.Node) error {
 		return nil
 	}
 
-	if key.Value[0] == '(' {
+	if key.Value != "" && key.Value[0] == '(' {
 		tmp := NewAnnotation()
 		if err := UnmarshalUntypedMapRAML(tmp, val); err != nil {
 			return err
diff --git a/v0/internal/raml/x-gen-ex-string.go b/v0/internal/raml/x-gen-ex-string.go
index e070113..1604bd0 100644
--- a/v0/internal/raml/x-gen-ex-string.go
+++ b/v0/internal/raml/x-gen-ex-string.go
@@ -154,7 +154,7 @@ func (e *StringExample) assign(key, val *yaml.Node) error {
 		return nil
 	}
 
-	if key.Value[0] == '(' {
+	if key.Value != "" && key.Value[0] == '(' {
 		tmp := NewAnnotation()
 		if err := UnmarshalUntypedMapRAML(tmp, val); err != nil {
 			return err
diff --git a/v0/internal/raml/x-gen-ex-timeonly.go b/v0/internal/raml/x-gen-ex-timeonly.go
index 496676d..1c03fcf 100644
--- a/v0/internal/raml/x-gen-ex-timeonly.go
+++ b/v0/internal/raml/x-gen-ex-timeonly.go
@@ -154,7 +154,7 @@ func (e *TimeOnlyExample) assign(key, val *yaml.Node) error {
 		return nil
 	}
 
-	if key.Value[0] == '(' {
+	if key.Value != "" && key.Value[0] == '(' {
 		tmp := NewAnnotation()
 		if err := UnmarshalUntypedMapRAML(tmp, val); err != nil {
 			return err
diff --git a/v0/internal/raml/x-gen-ex-union.go b/v0/internal/raml/x-gen-ex-union.go
index f2946f6..78c5c4a 100644
--- a/v0/internal/raml/x-gen-ex-union.go
+++ b/v0/internal/raml/x-gen-ex-union.go
@@ -154,7 +154,7 @@ func (e *UnionExample) assign(key, val *yaml.Node) error {
 		return nil
 	}
 
-	if key.Value[0] == '(' {
+	if key.Value != "" && key.Value[0] == '(' {
 		tmp := NewAnnotation()
 		if err := UnmarshalUntypedMapRAML(tmp, val); err != nil {
 			return err
-- 
2.43.0


From f043f48bb60d9e25fe02de617755cf74bc531300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:52 +0000
Subject: [PATCH 16/44] fix: read the annotation types of libraries

They were added to the library's annotations, or rejected if they are
not maps.
---
 v0/internal/raml/Library.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/v0/internal/raml/Library.go b/v0/internal/raml/Library.go
index a2c8417..33d3d31 100644
--- a/v0/internal/raml/Library.go
+++ b/v0/internal/raml/Library.go
@@ -212,7 +212,7 @@ func (l Library) MarshalYAML() (interface{}, error) {
 func (l *Library) assign(k, v *yaml.Node) error {
 	switch k.Value {
 	case rmeta.KeyAnnotationTypes:
-		return UnmarshalAnnotationMapRAML(l.annotations, v)
+		return UnmarshalUntypedMapRAML(l.annotationTypes, v)
 	case rmeta.KeyResourceTypes:
 		return UnmarshalUntypedMapRAML(l.resourceTypes, v)
 	case rmeta.KeyTypes, rmeta.KeySchemas:
-- 
2.43.0


From 4668d849dd8e09e4a17ecb5e3e5d957b03f88e55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:22 +0000
Subject: [PATCH 17/44] fix: write annotations and facet definitions as maps

They were written as ordered map sequences, which is not what was read
and which the parser itself rejects.
---
 v0/internal/raml/APISpec.go           | 2 +-
 v0/internal/raml/Library.go           | 2 +-
 v0/internal/raml/annotation.go        | 2 +-
 v0/internal/raml/in-components.go     | 2 +-
 v0/internal/raml/type-datatype-ext.go | 2 +-
 v0/internal/raml/type-facet.go        | 2 +-
 6 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/v0/internal/raml/APISpec.go b/v0/internal/raml/APISpec.go
index 3900945..1910b21 100644
--- a/v0/internal/raml/APISpec.go
+++ b/v0/internal/raml/APISpec.go
@@ -380,7 +380,7 @@ func (a *APISpec) assign(k, v *yaml.Node) error {
 	}
 
 	if k.Value != "" && k.Value[0] == '(' {
-		tmp := raml.NewUntypedMap(len(v.Content) / 2)
+		tmp := raml.NewUntypedMap(len(v.Content) / 2).SerializeOrdered(false)
 		if err := UnmarshalUntypedMapRAML(tmp, v); err != nil {
 			return err
 		}
diff --git a/v0/internal/raml/Library.go b/v0/internal/raml/Library.go
index 33d3d31..ed8a577 100644
--- a/v0/internal/raml/Library.go
+++ b/v0/internal/raml/Library.go
@@ -228,7 +228,7 @@ func (l *Library) assign(k, v *yaml.Node) error {
 	}
 
 	if xyml.IsString(k) && k.Value != "" && k.Value[0] == '(' {
-		tmp := raml.NewUntypedMap(len(v.Content) / 2)
+		tmp := raml.NewUntypedMap(len(v.Content) / 2).SerializeOrdered(false)
 		if err := UnmarshalUntypedMapRAML(tmp, v); err != nil {
 			return err
 		}
diff --git a/v0/internal/raml/annotation.go b/v0/internal/raml/annotation.go
index 9c66206..a940194 100644
--- a/v0/internal/raml/annotation.go
+++ b/v0/internal/raml/annotation.go
@@ -5,5 +5,5 @@ import (
 )
 
 func NewAnnotation() raml.Annotation {
-	return raml.Annotation(raml.NewUntypedMap(1))
+	return raml.Annotation(raml.NewUntypedMap(1).SerializeOrdered(false))
 }
diff --git a/v0/internal/raml/in-components.go b/v0/internal/raml/in-components.go
index f29819b..c711cfb 100644
--- a/v0/internal/raml/in-components.go
+++ b/v0/internal/raml/in-components.go
@@ -28,7 +28,7 @@ func (h *hasAnnotations) in(k string, v *yaml.Node) (bool, error) {
 		return false, nil
 	}
 
-	tmp := raml.NewUntypedMap(0)
+	tmp := raml.NewUntypedMap(0).SerializeOrdered(false)
 
 	if err := UnmarshalUntypedMapRAML(tmp, v); err != nil {
 		return false, err
diff --git a/v0/internal/raml/type-datatype-ext.go b/v0/internal/raml/type-datatype-ext.go
index 928617e..020337c 100644
--- a/v0/internal/raml/type-datatype-ext.go
+++ b/v0/internal/raml/type-datatype-ext.go
@@ -13,7 +13,7 @@ func NewExtendedDataType(kind rmeta.DataTypeKind, self concreteType) *ExtendedDa
 	return &ExtendedDataType{
 		DataType:       NewDataType(kind, self),
 		hasAnnotations: makeAnnotations(),
-		facets:         raml.NewFacetMap(0),
+		facets:         raml.NewFacetMap(0).SerializeOrdered(false),
 	}
 }
 
diff --git a/v0/internal/raml/type-facet.go b/v0/internal/raml/type-facet.go
index ab032bd..8de6136 100644
--- a/v0/internal/raml/type-facet.go
+++ b/v0/internal/raml/type-facet.go
@@ -5,5 +5,5 @@ import (
 )
 
 func NewFacet() raml.Facet {
-	return raml.NewDataTypeMap(0)
+	return raml.NewDataTypeMap(0).SerializeOrdered(false)
 }
-- 
2.43.0


From 6197af07d70f4789a5f6141dbc175c609070011c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:25 +0000
Subject: [PATCH 18/44] fix: write maps as maps after they have been unset

The replacements made by the Unset methods were written as ordered map
sequences, unlike the maps they replace.
---
 v0/gen/type-m/extended.tpl                   |  4 ++--
 v0/gen/type-m/object.tpl                     |  2 +-
 v0/internal/raml/APISpec.go                  | 14 +++++++-------
 v0/internal/raml/Library.go                  |  8 ++++----
 v0/internal/raml/x-gen-type-any.go           |  4 ++--
 v0/internal/raml/x-gen-type-array.go         |  4 ++--
 v0/internal/raml/x-gen-type-bool.go          |  4 ++--
 v0/internal/raml/x-gen-type-custom.go        |  4 ++--
 v0/internal/raml/x-gen-type-date-only.go     |  4 ++--
 v0/internal/raml/x-gen-type-datetime-only.go |  4 ++--
 v0/internal/raml/x-gen-type-datetime.go      |  4 ++--
 v0/internal/raml/x-gen-type-file.go          |  4 ++--
 v0/internal/raml/x-gen-type-integer.go       |  4 ++--
 v0/internal/raml/x-gen-type-number.go        |  4 ++--
 v0/internal/raml/x-gen-type-object.go        |  6 +++---
 v0/internal/raml/x-gen-type-string.go        |  4 ++--
 v0/internal/raml/x-gen-type-time-only.go     |  4 ++--
 v0/internal/raml/x-gen-type-union.go         |  4 ++--
 18 files changed, 43 insertions(+), 43 deletions(-)

diff --git a/v0/gen/type-m/extended.tpl b/v0/gen/type-m/extended.tpl
index 74aa070..6e51fb8 100644
--- a/v0/gen/type-m/extended.tpl
+++ b/v0/gen/type-m/extended.tpl
@@ -122,7 +122,7 @@ func (o *{{.Name}}Type) SetExamples(examples raml.{{.Name}}ExampleMap) raml.{{.N
 }
 
 func (o *{{.Name}}Type) UnsetExamples() raml.{{.Name}}Type {
-	o.examples = raml.New{{.Name}}ExampleMap(0)
+	o.examples = raml.New{{.Name}}ExampleMap(0).SerializeOrdered(false)
 	return o
 }
 
@@ -170,7 +170,7 @@ func (o *{{.Name}}Type) SetFacetDefinitions(facets raml.FacetMap) raml.{{.Name}}
 }
 
 func (o *{{.Name}}Type) UnsetFacetDefinitions() raml.{{.Name}}Type {
-	o.facets = raml.NewFacetMap(0)
+	o.facets = raml.NewFacetMap(0).SerializeOrdered(false)
 	return o
 }
 
diff --git a/v0/gen/type-m/object.tpl b/v0/gen/type-m/object.tpl
index ea1bdaf..bbeba8a 100644
--- a/v0/gen/type-m/object.tpl
+++ b/v0/gen/type-m/object.tpl
@@ -64,7 +64,7 @@ func (o *{{.Name}}Type) SetProperties(props raml.PropertyMap) raml.{{.Name}}Type
 }
 
 func (o *{{.Name}}Type) UnsetProperties() raml.{{.Name}}Type {
-	o.properties = raml.NewPropertyMap(3)
+	o.properties = raml.NewPropertyMap(3).SerializeOrdered(false)
 	return o
 }
 
diff --git a/v0/internal/raml/APISpec.go b/v0/internal/raml/APISpec.go
index 1910b21..2da9b79 100644
--- a/v0/internal/raml/APISpec.go
+++ b/v0/internal/raml/APISpec.go
@@ -157,7 +157,7 @@ func (a *APISpec) SetTypes(t raml.DataTypeMap) raml.APISpec {
 }
 
 func (a *APISpec) UnsetTypes() raml.APISpec {
-	a.types = raml.NewDataTypeMap(0)
+	a.types = raml.NewDataTypeMap(0).SerializeOrdered(false)
 	return a
 }
 
@@ -174,7 +174,7 @@ func (a *APISpec) SetSchemas(t raml.DataTypeMap) raml.APISpec {
 }
 
 func (a *APISpec) UnsetSchemas() raml.APISpec {
-	a.types = raml.NewDataTypeMap(0)
+	a.types = raml.NewDataTypeMap(0).SerializeOrdered(false)
 	return a
 }
 
@@ -191,7 +191,7 @@ func (a *APISpec) SetTraits(t raml.UntypedMap) raml.APISpec {
 }
 
 func (a *APISpec) UnsetTraits() raml.APISpec {
-	a.traits = raml.NewUntypedMap(0)
+	a.traits = raml.NewUntypedMap(0).SerializeOrdered(false)
 	return a
 }
 
@@ -208,7 +208,7 @@ func (a *APISpec) SetResourceTypes(t raml.UntypedMap) raml.APISpec {
 }
 
 func (a *APISpec) UnsetResourceTypes() raml.APISpec {
-	a.resourceTypes = raml.NewUntypedMap(0)
+	a.resourceTypes = raml.NewUntypedMap(0).SerializeOrdered(false)
 	return a
 }
 
@@ -225,7 +225,7 @@ func (a *APISpec) SetAnnotationTypes(t raml.UntypedMap) raml.APISpec {
 }
 
 func (a *APISpec) UnsetAnnotationTypes() raml.APISpec {
-	a.annotationTypes = raml.NewUntypedMap(0)
+	a.annotationTypes = raml.NewUntypedMap(0).SerializeOrdered(false)
 	return a
 }
 
@@ -259,7 +259,7 @@ func (a *APISpec) SetSecuritySchemes(t raml.UntypedMap) raml.APISpec {
 }
 
 func (a *APISpec) UnsetSecuritySchemes() raml.APISpec {
-	a.securitySchemes = raml.NewUntypedMap(0)
+	a.securitySchemes = raml.NewUntypedMap(0).SerializeOrdered(false)
 	return a
 }
 
@@ -290,7 +290,7 @@ func (a *APISpec) SetUses(s raml.StringMap) raml.APISpec {
 }
 
 func (a *APISpec) UnsetUses() raml.APISpec {
-	a.uses = raml.NewStringMap(0)
+	a.uses = raml.NewStringMap(0).SerializeOrdered(false)
 	return a
 }
 
diff --git a/v0/internal/raml/Library.go b/v0/internal/raml/Library.go
index ed8a577..ae62a42 100644
--- a/v0/internal/raml/Library.go
+++ b/v0/internal/raml/Library.go
@@ -73,7 +73,7 @@ func (l *Library) SetUses(uses raml.StringMap) raml.Library {
 }
 
 func (l *Library) UnsetUses() raml.Library {
-	l.uses = raml.NewStringMap(0)
+	l.uses = raml.NewStringMap(0).SerializeOrdered(false)
 	return l
 }
 
@@ -90,7 +90,7 @@ func (l *Library) SetResourceTypes(resTypes raml.UntypedMap) raml.Library {
 }
 
 func (l *Library) UnsetResourceTypes() raml.Library {
-	l.resourceTypes = raml.NewUntypedMap(0)
+	l.resourceTypes = raml.NewUntypedMap(0).SerializeOrdered(false)
 	return l
 }
 
@@ -111,7 +111,7 @@ func (l *Library) SetTraits(traits raml.UntypedMap) raml.Library {
 }
 
 func (l *Library) UnsetTraits() raml.Library {
-	l.traits = raml.NewUntypedMap(0)
+	l.traits = raml.NewUntypedMap(0).SerializeOrdered(false)
 	return l
 }
 
@@ -128,7 +128,7 @@ func (l *Library) SetTypes(types raml.DataTypeMap) raml.Library {
 }
 
 func (l *Library) UnsetTypes() raml.Library {
-	l.types = raml.NewDataTypeMap(0)
+	l.types = raml.NewDataTypeMap(0).SerializeOrdered(false)
 	return l
 }
 
diff --git a/v0/internal/raml/x-gen-type-any.go b/v0/internal/raml/x-gen-type-any.go
index 390e11b..feafd43 100644
--- a/v0/internal/raml/x-gen-type-any.go
+++ b/v0/internal/raml/x-gen-type-any.go
@@ -86,7 +86,7 @@ func (o *AnyType) SetExamples(examples raml.AnyExampleMap) raml.AnyType {
 }
 
 func (o *AnyType) UnsetExamples() raml.AnyType {
-	o.examples = raml.NewAnyExampleMap(0)
+	o.examples = raml.NewAnyExampleMap(0).SerializeOrdered(false)
 	return o
 }
 
@@ -134,7 +134,7 @@ func (o *AnyType) SetFacetDefinitions(facets raml.FacetMap) raml.AnyType {
 }
 
 func (o *AnyType) UnsetFacetDefinitions() raml.AnyType {
-	o.facets = raml.NewFacetMap(0)
+	o.facets = raml.NewFacetMap(0).SerializeOrdered(false)
 	return o
 }
 
diff --git a/v0/internal/raml/x-gen-type-array.go b/v0/internal/raml/x-gen-type-array.go
index 7c03efb..b9b8507 100644
--- a/v0/internal/raml/x-gen-type-array.go
+++ b/v0/internal/raml/x-gen-type-array.go
@@ -93,7 +93,7 @@ func (o *ArrayType) SetExamples(examples raml.ArrayExampleMap) raml.ArrayType {
 }
 
 func (o *ArrayType) UnsetExamples() raml.ArrayType {
-	o.examples = raml.NewArrayExampleMap(0)
+	o.examples = raml.NewArrayExampleMap(0).SerializeOrdered(false)
 	return o
 }
 
@@ -141,7 +141,7 @@ func (o *ArrayType) SetFacetDefinitions(facets raml.FacetMap) raml.ArrayType {
 }
 
 func (o *ArrayType) UnsetFacetDefinitions() raml.ArrayType {
-	o.facets = raml.NewFacetMap(0)
+	o.facets = raml.NewFacetMap(0).SerializeOrdered(false)
 	return o
 }
 
diff --git a/v0/internal/raml/x-gen-type-bool.go b/v0/internal/raml/x-gen-type-bool.go
index 171755a..e3dd70d 100644
--- a/v0/internal/raml/x-gen-type-bool.go
+++ b/v0/internal/raml/x-gen-type-bool.go
@@ -86,7 +86,7 @@ func (o *BoolType) SetExamples(examples raml.BoolExampleMap) raml.BoolType {
 }
 
 func (o *BoolType) UnsetExamples() raml.BoolType {
-	o.examples = raml.NewBoolExampleMap(0)
+	o.examples = raml.NewBoolExampleMap(0).SerializeOrdered(false)
 	return o
 }
 
@@ -134,7 +134,7 @@ func (o *BoolType) SetFacetDefinitions(facets raml.FacetMap) raml.BoolType {
 }
 
 func (o *BoolType) UnsetFacetDefinitions() raml.BoolType {
-	o.facets = raml.NewFacetMap(0)
+	o.facets = raml.NewFacetMap(0).SerializeOrdered(false)
 	return o
 }
 
diff --git a/v0/internal/raml/x-gen-type-custom.go b/v0/internal/raml/x-gen-type-custom.go
index 4a9d881..316f3ee 100644
--- a/v0/internal/raml/x-gen-type-custom.go
+++ b/v0/internal/raml/x-gen-type-custom.go
@@ -86,7 +86,7 @@ func (o *CustomType) SetExamples(examples raml.CustomExampleMap) raml.CustomType
 }
 
 func (o *CustomType) UnsetExamples() raml.CustomType {
-	o.examples = raml.NewCustomExampleMap(0)
+	o.examples = raml.NewCustomExampleMap(0).SerializeOrdered(false)
 	return o
 }
 
@@ -134,7 +134,7 @@ func (o *CustomType) SetFacetDefinitions(facets raml.FacetMap) raml.CustomType {
 }
 
 func (o *CustomType) UnsetFacetDefinitions() raml.CustomType {
-	o.facets = raml.NewFacetMap(0)
+	o.facets = raml.NewFacetMap(0).SerializeOrdered(false)
 	return o
 }
 
diff --git a/v0/internal/raml/x-gen-type-date-only.go b/v0/internal/raml/x-gen-type-date-only.go
index 4475886..4da7768 100644
--- a/v0/internal/raml/x-gen-type-date-only.go
+++ b/v0/internal/raml/x-gen-type-date-only.go
@@ -86,7 +86,7 @@ func (o *DateOnlyType) SetExamples(examples raml.DateOnlyExampleMap) raml.DateOn
 }
 
 func (o *DateOnlyType) UnsetExamples() raml.DateOnlyType {
-	o.examples = raml.NewDateOnlyExampleMap(0)
+	o.examples = raml.NewDateOnlyExampleMap(0).SerializeOrdered(false)
 	return o
 }
 
@@ -134,7 +134,7 @@ func (o *DateOnlyType) SetFacetDefinitions(facets raml.FacetMap) raml.DateOnlyTy
 }
 
 func (o *DateOnlyType) UnsetFacetDefinitions() raml.DateOnlyType {
-	o.facets = raml.NewFacetMap(0)
+	o.facets = raml.NewFacetMap(0).SerializeOrdered(false)
 	return o
 }
 
diff --git a/v0/internal/raml/x-gen-type-datetime-only.go b/v0/internal/raml/x-gen-type-datetime-only.go
index 201b68a..12a9303 100644
--- a/v0/internal/raml/x-gen-type-datetime-only.go
+++ b/v0/internal/raml/x-gen-type-datetime-only.go
@@ -86,7 +86,7 @@ func (o *DatetimeOnlyType) SetExamples(examples raml.DatetimeOnlyExampleMap) ram
 }
 
 func (o *DatetimeOnlyType) UnsetExamples() raml.DatetimeOnlyType {
-	o.examples = raml.NewDatetimeOnlyExampleMap(0)
+	o.examples = raml.NewDatetimeOnlyExampleMap(0).SerializeOrdered(false)
 	return o
 }
 
@@ -134,7 +134,7 @@ func (o *DatetimeOnlyType) SetFacetDefinitions(facets raml.FacetMap) raml.Dateti
 }
 
 func (o *DatetimeOnlyType) UnsetFacetDefinitions() raml.DatetimeOnlyType {
-	o.facets = raml.NewFacetMap(0)
+	o.facets = raml.NewFacetMap(0).SerializeOrdered(false)
 	return o
 }
 
diff --git a/v0/internal/raml/x-gen-type-datetime.go b/v0/internal/raml/x-gen-type-datetime.go
index 4b4e9b0..8ee518b 100644
--- a/v0/internal/raml/x-gen-type-datetime.go
+++ b/v0/internal/raml/x-gen-type-datetime.go
@@ -87,7 +87,7 @@ func (o *DatetimeType) SetExamples(examples raml.DatetimeExampleMap) raml.Dateti
 }
 
 func (o *DatetimeType) UnsetExamples() raml.DatetimeType {
-	o.examples = raml.NewDatetimeExampleMap(0)
+	o.examples = raml.NewDatetimeExampleMap(0).SerializeOrdered(false)
 	return o
 }
 
@@ -135,7 +135,7 @@ func (o *DatetimeType) SetFacetDefinitions(facets raml.FacetMap) raml.DatetimeTy
 }
 
 func (o *DatetimeType) UnsetFacetDefinitions() raml.DatetimeType {
-	o.facets = raml.NewFacetMap(0)
+	o.facets = raml.NewFacetMap(0).SerializeOrdered(false)
 	return o
 }
 
diff --git a/v0/internal/raml/x-gen-type-file.go b/v0/internal/raml/x-gen-type-file.go
index f5faa94..c32cfd9 100644
--- a/v0/internal/raml/x-gen-type-file.go
+++ b/v0/internal/raml/x-gen-type-file.go
@@ -92,7 +92,7 @@ func (o *FileType) SetExamples(examples raml.FileExampleMap) raml.FileType {
 }
 
 func (o *FileType) UnsetExamples() raml.FileType {
-	o.examples = raml.NewFileExampleMap(0)
+	o.examples = raml.NewFileExampleMap(0).SerializeOrdered(false)
 	return o
 }
 
@@ -140,7 +140,7 @@ func (o *FileType) SetFacetDefinitions(facets raml.FacetMap) raml.FileType {
 }
 
 func (o *FileType) UnsetFacetDefinitions() raml.FileType {
-	o.facets = raml.NewFacetMap(0)
+	o.facets = raml.NewFacetMap(0).SerializeOrdered(false)
 	return o
 }
 
diff --git a/v0/internal/raml/x-gen-type-integer.go b/v0/internal/raml/x-gen-type-integer.go
index a0e6346..11bdf74 100644
--- a/v0/internal/raml/x-gen-type-integer.go
+++ b/v0/internal/raml/x-gen-type-integer.go
@@ -90,7 +90,7 @@ func (o *IntegerType) SetExamples(examples raml.IntegerExampleMap) raml.IntegerT
 }
 
 func (o *IntegerType) UnsetExamples() raml.IntegerType {
-	o.examples = raml.NewIntegerExampleMap(0)
+	o.examples = raml.NewIntegerExampleMap(0).SerializeOrdered(false)
 	return o
 }
 
@@ -138,7 +138,7 @@ func (o *IntegerType) SetFacetDefinitions(facets raml.FacetMap) raml.IntegerType
 }
 
 func (o *IntegerType) UnsetFacetDefinitions() raml.IntegerType {
-	o.facets = raml.NewFacetMap(0)
+	o.facets = raml.NewFacetMap(0).SerializeOrdered(false)
 	return o
 }
 
diff --git a/v0/internal/raml/x-gen-type-number.go b/v0/internal/raml/x-gen-type-number.go
index fcc1a38..a3e9e65 100644
--- a/v0/internal/raml/x-gen-type-number.go
+++ b/v0/internal/raml/x-gen-type-number.go
@@ -90,7 +90,7 @@ func (o *NumberType) SetExamples(examples raml.NumberExampleMap) raml.NumberType
 }
 
 func (o *NumberType) UnsetExamples() raml.NumberType {
-	o.examples = raml.NewNumberExampleMap(0)
+	o.examples = raml.NewNumberExampleMap(0).SerializeOrdered(false)
 	return o
 }
 
@@ -138,7 +138,7 @@ func (o *NumberType) SetFacetDefinitions(facets raml.FacetMap) raml.NumberType {
 }
 
 func (o *NumberType) UnsetFacetDefinitions() raml.NumberType {
-	o.facets = raml.NewFacetMap(0)
+	o.facets = raml.NewFacetMap(0).SerializeOrdered(false)
 	return o
 }
 
diff --git a/v0/internal/raml/x-gen-type-object.go b/v0/internal/raml/x-gen-type-object.go
index 2f0f0c6..8e526ca 100644
--- a/v0/internal/raml/x-gen-type-object.go
+++ b/v0/internal/raml/x-gen-type-object.go
@@ -95,7 +95,7 @@ func (o *ObjectType) SetExamples(examples raml.ObjectExampleMap) raml.ObjectType
 }
 
 func (o *ObjectType) UnsetExamples() raml.ObjectType {
-	o.examples = raml.NewObjectExampleMap(0)
+	o.examples = raml.NewObjectExampleMap(0).SerializeOrdered(false)
 	return o
 }
 
@@ -143,7 +143,7 @@ func (o *ObjectType) SetFacetDefinitions(facets raml.FacetMap) raml.ObjectType {
 }
 
 func (o *ObjectType) UnsetFacetDefinitions() raml.ObjectType {
-	o.facets = raml.NewFacetMap(0)
+	o.facets = raml.NewFacetMap(0).SerializeOrdered(false)
 	return o
 }
 
@@ -204,7 +204,7 @@ func (o *ObjectType) SetProperties(props raml.PropertyMap) raml.ObjectType {
 }
 
 func (o *ObjectType) UnsetProperties() raml.ObjectType {
-	o.properties = raml.NewPropertyMap(3)
+	o.properties = raml.NewPropertyMap(3).SerializeOrdered(false)
 	return o
 }
 
diff --git a/v0/internal/raml/x-gen-type-string.go b/v0/internal/raml/x-gen-type-string.go
index 20554a2..6b6cff6 100644
--- a/v0/internal/raml/x-gen-type-string.go
+++ b/v0/internal/raml/x-gen-type-string.go
@@ -91,7 +91,7 @@ func (o *StringType) SetExamples(examples raml.StringExampleMap) raml.StringType
 }
 
 func (o *StringType) UnsetExamples() raml.StringType {
-	o.examples = raml.NewStringExampleMap(0)
+	o.examples = raml.NewStringExampleMap(0).SerializeOrdered(false)
 	return o
 }
 
@@ -139,7 +139,7 @@ func (o *StringType) SetFacetDefinitions(facets raml.FacetMap) raml.StringType {
 }
 
 func (o *StringType) UnsetFacetDefinitions() raml.StringType {
-	o.facets = raml.NewFacetMap(0)
+	o.facets = raml.NewFacetMap(0).SerializeOrdered(false)
 	return o
 }
 
diff --git a/v0/internal/raml/x-gen-type-time-only.go b/v0/internal/raml/x-gen-type-time-only.go
index 8cf5323..b35c67b 100644
--- a/v0/internal/raml/x-gen-type-time-only.go
+++ b/v0/internal/raml/x-gen-type-time-only.go
@@ -86,7 +86,7 @@ func (o *TimeOnlyType) SetExamples(examples raml.TimeOnlyExampleMap) raml.TimeOn
 }
 
 func (o *TimeOnlyType) UnsetExamples() raml.TimeOnlyType {
-	o.examples = raml.NewTimeOnlyExampleMap(0)
+	o.examples = raml.NewTimeOnlyExampleMap(0).SerializeOrdered(false)
 	return o
 }
 
@@ -134,7 +134,7 @@ func (o *TimeOnlyType) SetFacetDefinitions(facets raml.FacetMap) raml.TimeOnlyTy
 }
 
 func (o *TimeOnlyType) UnsetFacetDefinitions() raml.TimeOnlyType {
-	o.facets = raml.NewFacetMap(0)
+	o.facets = raml.NewFacetMap(0).SerializeOrdered(false)
 	return o
 }
 
diff --git a/v0/internal/raml/x-gen-type-union.go b/v0/internal/raml/x-gen-type-union.go
index db1a389..2385945 100644
--- a/v0/internal/raml/x-gen-type-union.go
+++ b/v0/internal/raml/x-gen-type-union.go
@@ -86,7 +86,7 @@ func (o *UnionType) SetExamples(examples raml.UnionExampleMap) raml.UnionType {
 }
 
 func (o *UnionType) UnsetExamples() raml.UnionType {
-	o.examples = raml.NewUnionExampleMap(0)
+	o.examples = raml.NewUnionExampleMap(0).SerializeOrdered(false)
 	return o
 }
 
@@ -134,7 +134,7 @@ func (o *UnionType) SetFacetDefinitions(facets raml.FacetMap) raml.UnionType {
 }
 
 func (o *UnionType) UnsetFacetDefinitions() raml.UnionType {
-	o.facets = raml.NewFacetMap(0)
+	o.facets = raml.NewFacetMap(0).SerializeOrdered(false)
 	return o
 }
 
-- 
2.43.0


From 9aba4d06f6a7ca6cf064a7ef218351ccd7025725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:09 +0000
Subject: [PATCH 19/44] fix: read the default facet

It was kept among the unknown facets, so Default was always empty after
parsing and SetDefault had no effect on a parsed type when written.
---
 v0/gen/type-m/extended.tpl                   | 20 ++++++++++++++++++++
 v0/internal/raml/x-gen-type-any.go           |  4 ++++
 v0/internal/raml/x-gen-type-array.go         |  6 ++++++
 v0/internal/raml/x-gen-type-bool.go          |  2 ++
 v0/internal/raml/x-gen-type-custom.go        |  4 ++++
 v0/internal/raml/x-gen-type-date-only.go     |  2 ++
 v0/internal/raml/x-gen-type-datetime-only.go |  2 ++
 v0/internal/raml/x-gen-type-datetime.go      |  2 ++
 v0/internal/raml/x-gen-type-file.go          |  4 ++++
 v0/internal/raml/x-gen-type-integer.go       |  2 ++
 v0/internal/raml/x-gen-type-number.go        |  2 ++
 v0/internal/raml/x-gen-type-object.go        |  4 ++++
 v0/internal/raml/x-gen-type-string.go        |  2 ++
 v0/internal/raml/x-gen-type-time-only.go     |  2 ++
 v0/internal/raml/x-gen-type-union.go         |  4 ++++
 15 files changed, 62 insertions(+)

diff --git a/v0/gen/type-m/extended.tpl b/v0/gen/type-m/extended.tpl
index 6e51fb8..d3d2f88 100644
--- a/v0/gen/type-m/extended.tpl
+++ b/v0/gen/type-m/extended.tpl
@@ -302,6 +302,26 @@ func (o *{{.Name}}Type) assign(key, val *yaml.Node) error {
 			return nil
 		})
 		return nil
+	case rmeta.KeyDefault:
+		{{if eq .DefTypeName "Bool" -}}
+		return assign.AsBoolPtr(val, &o.def)
+		{{- else if eq .DefTypeName "Int64" -}}
+		return assign.AsInt64Ptr(val, &o.def)
+		{{- else if eq .DefTypeName "Float64" -}}
+		return assign.AsFloat64Ptr(val, &o.def)
+		{{- else if eq .DefTypeName "String" -}}
+		return assign.AsStringPtr(val, &o.def)
+		{{- else if .IsDefPtr -}}
+		var def interface{} = val
+		o.def = &def
+		return nil
+		{{- else -}}
+		o.def = make([]interface{}, 0, len(val.Content))
+		return xyml.SequenceForEach(val, func(cur *yaml.Node) error {
+			o.def = append(o.def, cur)
+			return nil
+		})
+		{{- end}}
 	case rmeta.KeyRequired:
 		return assign.AsBool(val, &o.required)
 	}
diff --git a/v0/internal/raml/x-gen-type-any.go b/v0/internal/raml/x-gen-type-any.go
index feafd43..1c43f92 100644
--- a/v0/internal/raml/x-gen-type-any.go
+++ b/v0/internal/raml/x-gen-type-any.go
@@ -220,6 +220,10 @@ func (o *AnyType) assign(key, val *yaml.Node) error {
 			return nil
 		})
 		return nil
+	case rmeta.KeyDefault:
+		var def interface{} = val
+		o.def = &def
+		return nil
 	case rmeta.KeyRequired:
 		return assign.AsBool(val, &o.required)
 	}
diff --git a/v0/internal/raml/x-gen-type-array.go b/v0/internal/raml/x-gen-type-array.go
index b9b8507..5184330 100644
--- a/v0/internal/raml/x-gen-type-array.go
+++ b/v0/internal/raml/x-gen-type-array.go
@@ -282,6 +282,12 @@ func (o *ArrayType) assign(key, val *yaml.Node) error {
 			return nil
 		})
 		return nil
+	case rmeta.KeyDefault:
+		o.def = make([]interface{}, 0, len(val.Content))
+		return xyml.SequenceForEach(val, func(cur *yaml.Node) error {
+			o.def = append(o.def, cur)
+			return nil
+		})
 	case rmeta.KeyRequired:
 		return assign.AsBool(val, &o.required)
 	}
diff --git a/v0/internal/raml/x-gen-type-bool.go b/v0/internal/raml/x-gen-type-bool.go
index e3dd70d..b88ecb4 100644
--- a/v0/internal/raml/x-gen-type-bool.go
+++ b/v0/internal/raml/x-gen-type-bool.go
@@ -225,6 +225,8 @@ func (o *BoolType) assign(key, val *yaml.Node) error {
 			return nil
 		})
 		return nil
+	case rmeta.KeyDefault:
+		return assign.AsBoolPtr(val, &o.def)
 	case rmeta.KeyRequired:
 		return assign.AsBool(val, &o.required)
 	}
diff --git a/v0/internal/raml/x-gen-type-custom.go b/v0/internal/raml/x-gen-type-custom.go
index 316f3ee..0ead5d4 100644
--- a/v0/internal/raml/x-gen-type-custom.go
+++ b/v0/internal/raml/x-gen-type-custom.go
@@ -220,6 +220,10 @@ func (o *CustomType) assign(key, val *yaml.Node) error {
 			return nil
 		})
 		return nil
+	case rmeta.KeyDefault:
+		var def interface{} = val
+		o.def = &def
+		return nil
 	case rmeta.KeyRequired:
 		return assign.AsBool(val, &o.required)
 	}
diff --git a/v0/internal/raml/x-gen-type-date-only.go b/v0/internal/raml/x-gen-type-date-only.go
index 4da7768..8a54c62 100644
--- a/v0/internal/raml/x-gen-type-date-only.go
+++ b/v0/internal/raml/x-gen-type-date-only.go
@@ -225,6 +225,8 @@ func (o *DateOnlyType) assign(key, val *yaml.Node) error {
 			return nil
 		})
 		return nil
+	case rmeta.KeyDefault:
+		return assign.AsStringPtr(val, &o.def)
 	case rmeta.KeyRequired:
 		return assign.AsBool(val, &o.required)
 	}
diff --git a/v0/internal/raml/x-gen-type-datetime-only.go b/v0/internal/raml/x-gen-type-datetime-only.go
index 12a9303..f4c3c1e 100644
--- a/v0/internal/raml/x-gen-type-datetime-only.go
+++ b/v0/internal/raml/x-gen-type-datetime-only.go
@@ -225,6 +225,8 @@ func (o *DatetimeOnlyType) assign(key, val *yaml.Node) error {
 			return nil
 		})
 		return nil
+	case rmeta.KeyDefault:
+		return assign.AsStringPtr(val, &o.def)
 	case rmeta.KeyRequired:
 		return assign.AsBool(val, &o.required)
 	}
diff --git a/v0/internal/raml/x-gen-type-datetime.go b/v0/internal/raml/x-gen-type-datetime.go
index 8ee518b..2242f08 100644
--- a/v0/internal/raml/x-gen-type-datetime.go
+++ b/v0/internal/raml/x-gen-type-datetime.go
@@ -240,6 +240,8 @@ func (o *DatetimeType) assign(key, val *yaml.Node) error {
 			return nil
 		})
 		return nil
+	case rmeta.KeyDefault:
+		return assign.AsStringPtr(val, &o.def)
 	case rmeta.KeyRequired:
 		return assign.AsBool(val, &o.required)
 	}
diff --git a/v0/internal/raml/x-gen-type-file.go b/v0/internal/raml/x-gen-type-file.go
index c32cfd9..ca60a9e 100644
--- a/v0/internal/raml/x-gen-type-file.go
+++ b/v0/internal/raml/x-gen-type-file.go
@@ -266,6 +266,10 @@ func (o *FileType) assign(key, val *yaml.Node) error {
 			return nil
 		})
 		return nil
+	case rmeta.KeyDefault:
+		var def interface{} = val
+		o.def = &def
+		return nil
 	case rmeta.KeyRequired:
 		return assign.AsBool(val, &o.required)
 	}
diff --git a/v0/internal/raml/x-gen-type-integer.go b/v0/internal/raml/x-gen-type-integer.go
index 11bdf74..1ce4f69 100644
--- a/v0/internal/raml/x-gen-type-integer.go
+++ b/v0/internal/raml/x-gen-type-integer.go
@@ -288,6 +288,8 @@ func (o *IntegerType) assign(key, val *yaml.Node) error {
 			return nil
 		})
 		return nil
+	case rmeta.KeyDefault:
+		return assign.AsInt64Ptr(val, &o.def)
 	case rmeta.KeyRequired:
 		return assign.AsBool(val, &o.required)
 	}
diff --git a/v0/internal/raml/x-gen-type-number.go b/v0/internal/raml/x-gen-type-number.go
index a3e9e65..6168010 100644
--- a/v0/internal/raml/x-gen-type-number.go
+++ b/v0/internal/raml/x-gen-type-number.go
@@ -287,6 +287,8 @@ func (o *NumberType) assign(key, val *yaml.Node) error {
 			return nil
 		})
 		return nil
+	case rmeta.KeyDefault:
+		return assign.AsFloat64Ptr(val, &o.def)
 	case rmeta.KeyRequired:
 		return assign.AsBool(val, &o.required)
 	}
diff --git a/v0/internal/raml/x-gen-type-object.go b/v0/internal/raml/x-gen-type-object.go
index 8e526ca..16602ea 100644
--- a/v0/internal/raml/x-gen-type-object.go
+++ b/v0/internal/raml/x-gen-type-object.go
@@ -323,6 +323,10 @@ func (o *ObjectType) assign(key, val *yaml.Node) error {
 			return nil
 		})
 		return nil
+	case rmeta.KeyDefault:
+		var def interface{} = val
+		o.def = &def
+		return nil
 	case rmeta.KeyRequired:
 		return assign.AsBool(val, &o.required)
 	}
diff --git a/v0/internal/raml/x-gen-type-string.go b/v0/internal/raml/x-gen-type-string.go
index 6b6cff6..0870708 100644
--- a/v0/internal/raml/x-gen-type-string.go
+++ b/v0/internal/raml/x-gen-type-string.go
@@ -271,6 +271,8 @@ func (o *StringType) assign(key, val *yaml.Node) error {
 			return nil
 		})
 		return nil
+	case rmeta.KeyDefault:
+		return assign.AsStringPtr(val, &o.def)
 	case rmeta.KeyRequired:
 		return assign.AsBool(val, &o.required)
 	}
diff --git a/v0/internal/raml/x-gen-type-time-only.go b/v0/internal/raml/x-gen-type-time-only.go
index b35c67b..4c32e97 100644
--- a/v0/internal/raml/x-gen-type-time-only.go
+++ b/v0/internal/raml/x-gen-type-time-only.go
@@ -225,6 +225,8 @@ func (o *TimeOnlyType) assign(key, val *yaml.Node) error {
 			return nil
 		})
 		return nil
+	case rmeta.KeyDefault:
+		return assign.AsStringPtr(val, &o.def)
 	case rmeta.KeyRequired:
 		return assign.AsBool(val, &o.required)
 	}
diff --git a/v0/internal/raml/x-gen-type-union.go b/v0/internal/raml/x-gen-type-union.go
index 2385945..6d0a75b 100644
--- a/v0/internal/raml/x-gen-type-union.go
+++ b/v0/internal/raml/x-gen-type-union.go
@@ -220,6 +220,10 @@ func (o *UnionType) assign(key, val *yaml.Node) error {
 			return nil
 		})
 		return nil
+	case rmeta.KeyDefault:
+		var def interface{} = val
+		o.def = &def
+		return nil
 	case rmeta.KeyRequired:
 		return assign.AsBool(val, &o.required)
 	}
-- 
2.43.0


From 66f70b79df8a207fa183d679a58e0e904008dba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:54 +0000
Subject: [PATCH 20/44] fix: write a single media type as a plain string

That is what MediaTypes documents.
---
 v0/internal/raml/APISpec.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/v0/internal/raml/APISpec.go b/v0/internal/raml/APISpec.go
index 2da9b79..f82b8ab 100644
--- a/v0/internal/raml/APISpec.go
+++ b/v0/internal/raml/APISpec.go
@@ -309,7 +309,7 @@ func (a APISpec) MarshalYAML() (interface{}, error) {
 		PutIfNotNil(rmeta.KeyBaseURI, a.baseURI).
 		PutIfNotNil(rmeta.KeyDescription, a.description).
 		PutIfNotNil(rmeta.KeyProtocols, a.protocols).
-		PutIfNotNil(rmeta.KeyMediaType, a.mediaType).
+		PutIfNotNil(rmeta.KeyMediaType, mediaTypeValue(a.mediaType)).
 		PutIfNotNil(rmeta.KeyDocumentation, a.documentation).
 		PutIfNotNil(rmeta.KeySecuredBy, a.securedBy).
 		SerializeOrdered(false)
@@ -349,6 +349,16 @@ func (a APISpec) MarshalYAML() (interface{}, error) {
 	return out.ToYAML()
 }
 
+// mediaTypeValue returns the form in which the given media types are written:
+// a single media type is written as a plain string.
+func mediaTypeValue(types []string) interface{} {
+	if len(types) == 1 {
+		return types[0]
+	}
+
+	return types
+}
+
 func (a *APISpec) UnmarshalYAML(raw *yaml.Node) error {
 	return xyml.MapForEach(raw, a.assign)
 }
-- 
2.43.0


From 64177405ffeb523112d3336a6cbc01732409df52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:55 +0000
Subject: [PATCH 21/44] fix: do not panic in GetOpt on nil values

A stored nil is documented to be found like any other value.
---
 v0/pkg/raml/AnyExampleMap.go | 2 +-
 v0/pkg/raml/AnyMap.go        | 2 +-
 v0/pkg/raml/UntypedMap.go    | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/v0/pkg/raml/AnyExampleMap.go b/v0/pkg/raml/AnyExampleMap.go
index 9fcc3c4..d2252e6 100644
--- a/v0/pkg/raml/AnyExampleMap.go
+++ b/v0/pkg/raml/AnyExampleMap.go
@@ -197,7 +197,7 @@ func (i *implAnyExampleMap) Get(k string) (value interface{}, exists bool) {
 
 func (i *implAnyExampleMap) GetOpt(k string) option.Untyped {
 	if v, ok := i.index[k]; ok {
-		return option.NewUntyped(v)
+		return option.NewMaybeUntyped(&v)
 	}
 
 	return option.NewEmptyUntyped()
diff --git a/v0/pkg/raml/AnyMap.go b/v0/pkg/raml/AnyMap.go
index 4b96fbf..e8f75e8 100644
--- a/v0/pkg/raml/AnyMap.go
+++ b/v0/pkg/raml/AnyMap.go
@@ -198,7 +198,7 @@ func (i *implAnyMap) Get(k interface{}) (value interface{}, exists bool) {
 
 func (i *implAnyMap) GetOpt(k interface{}) option.Untyped {
 	if v, ok := i.index[k]; ok {
-		return option.NewUntyped(v)
+		return option.NewMaybeUntyped(&v)
 	}
 
 	return option.NewEmptyUntyped()
diff --git a/v0/pkg/raml/UntypedMap.go b/v0/pkg/raml/UntypedMap.go
index 2725cf4..4ecb54f 100644
--- a/v0/pkg/raml/UntypedMap.go
+++ b/v0/pkg/raml/UntypedMap.go
@@ -198,7 +198,7 @@ func (i *implUntypedMap) Get(k string) (value interface{}, exists bool) {
 
 func (i *implUntypedMap) GetOpt(k string) option.Untyped {
 	if v, ok := i.index[k]; ok {
-		return option.NewUntyped(v)
+		return option.NewMaybeUntyped(&v)
 	}
 
 	return option.NewEmptyUntyped()
-- 
2.43.0


From c54ca19b4f86a3f14d33ef3070c17459ef668d4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:58 +0000
Subject: [PATCH 22/44] fix: write numbers in AnyExampleMap without rounding
 them

---
 v0/pkg/raml/AnyExampleMap.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/v0/pkg/raml/AnyExampleMap.go b/v0/pkg/raml/AnyExampleMap.go
index d2252e6..32608cb 100644
--- a/v0/pkg/raml/AnyExampleMap.go
+++ b/v0/pkg/raml/AnyExampleMap.go
@@ -6,6 +6,7 @@ import (
 
 	"github.com/Foxcapades/gomp/v1/pkg/gomp"
 	"github.com/Foxcapades/goop/v1/pkg/option"
+	"github.com/Foxcapades/lib-go-raml/v0/internal/util"
 	"github.com/Foxcapades/lib-go-yaml/v1/pkg/xyml"
 	"gopkg.in/yaml.v3"
 )
@@ -134,7 +135,7 @@ func (i implAnyExampleMap) ToYAML() (*yaml.Node, error) {
 
 		for j := range i.ordered {
 			tmp := xyml.NewMapNode(1)
-			if e := xyml.MapAppend(tmp, i.ordered[j].Key, i.ordered[j].Val); e != nil {
+			if e := util.MapAppend(tmp, i.ordered[j].Key, i.ordered[j].Val); e != nil {
 				return nil, e
 			}
 			if err := xyml.SequenceAppend(out, tmp); err != nil {
@@ -148,7 +149,7 @@ func (i implAnyExampleMap) ToYAML() (*yaml.Node, error) {
 	out := xyml.NewMapNode(i.Len())
 
 	for j := range i.ordered {
-		if e := xyml.MapAppend(out, i.ordered[j].Key, i.ordered[j].Val); e != nil {
+		if e := util.MapAppend(out, i.ordered[j].Key, i.ordered[j].Val); e != nil {
 			return nil, e
 		}
 	}
-- 
2.43.0


From 2d79499737c445f8f5c6d9fc8569029fee2b0fdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:00 +0000
Subject: [PATCH 23/44] fix: implement DataType.ToRAML

It is part of the public interface of every type and always panicked.
---
 v0/internal/raml/DataType.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/v0/internal/raml/DataType.go b/v0/internal/raml/DataType.go
index feee06d..a695e8a 100644
--- a/v0/internal/raml/DataType.go
+++ b/v0/internal/raml/DataType.go
@@ -52,7 +52,13 @@ func (d *DataType) Required() bool {
 }
 
 func (d *DataType) ToRAML() (string, error) {
-	panic("implement me")
+	out, err := d.ToYAML()
+	if err != nil {
+		return "", err
+	}
+
+	raw, err := yaml.Marshal(out)
+	return string(raw), err
 }
 
 func (d DataType) ToYAML() (*yaml.Node, error) {
-- 
2.43.0


From 8ce21654c80e15cca19db8aef0b1c622f6907842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:35 +0000
Subject: [PATCH 24/44] fix: accept unquoted dates and times

YAML resolves them to timestamps, which the example, default and enum
facets of the date types rejected.
---
 v0/gen/example-m.tpl                         |  6 ++++-
 v0/gen/type-m/extended.tpl                   |  4 +++
 v0/internal/raml/x-gen-ex-dateonly.go        |  7 +----
 v0/internal/raml/x-gen-ex-datetime.go        |  7 +----
 v0/internal/raml/x-gen-ex-datetimeonly.go    |  7 +----
 v0/internal/raml/x-gen-ex-timeonly.go        |  7 +----
 v0/internal/raml/x-gen-type-date-only.go     |  5 ++--
 v0/internal/raml/x-gen-type-datetime-only.go |  5 ++--
 v0/internal/raml/x-gen-type-datetime.go      |  5 ++--
 v0/internal/raml/x-gen-type-number.go        |  1 +
 v0/internal/raml/x-gen-type-time-only.go     |  5 ++--
 v0/internal/util/assign/time.go              | 27 ++++++++++++++++++++
 12 files changed, 49 insertions(+), 37 deletions(-)
 create mode 100644 v0/internal/util/assign/time.go

diff --git a/v0/gen/example-m.tpl b/v0/gen/example-m.tpl
index b0453d8..8f32c36 100644
--- a/v0/gen/example-m.tpl
+++ b/v0/gen/example-m.tpl
@@ -202,7 +202,9 @@ func (e *{{.Name}}Example) expand() bool {
 }
 
 func (e *{{.Name}}Example) assignVal(val *yaml.Node) error {
-	{{if eq .Type "string" -}}
+	{{if eq .Name "DateOnly" "TimeOnly" "DatetimeOnly" "Datetime" -}}
+	return assign.AsTimeStringPtr(val, &e.value)
+	{{- else if eq .Type "string" -}}
 	if err := xyml.RequireString(val); err != nil {
 		return err
 	}
@@ -235,7 +237,9 @@ func (e *{{.Name}}Example) assignVal(val *yaml.Node) error {
 	var tmp interface{} = val
 	e.value = &tmp
 	{{- end}}
+	{{- if not (eq .Name "DateOnly" "TimeOnly" "DatetimeOnly" "Datetime")}}
 
 	return nil
+	{{- end}}
 }
 {{end}}
\ No newline at end of file
diff --git a/v0/gen/type-m/extended.tpl b/v0/gen/type-m/extended.tpl
index d3d2f88..8842435 100644
--- a/v0/gen/type-m/extended.tpl
+++ b/v0/gen/type-m/extended.tpl
@@ -288,6 +288,8 @@ func (o *{{.Name}}Type) assign(key, val *yaml.Node) error {
 				if val, err := xyml.ToInt(cur, 10); err != nil {
 			{{else if eq .DefTypeName "Float64" -}}
 				if val, err := assign.ToFloat64(cur); err != nil {
+			{{else if eq .Name "DateOnly" "TimeOnly" "DatetimeOnly" "Datetime" -}}
+				if val, err := assign.ToTimeString(cur); err != nil {
 			{{- else -}}
 				if val, err := xyml.To{{.DefTypeName}}(cur); err != nil {
 			{{end}}
@@ -309,6 +311,8 @@ func (o *{{.Name}}Type) assign(key, val *yaml.Node) error {
 		return assign.AsInt64Ptr(val, &o.def)
 		{{- else if eq .DefTypeName "Float64" -}}
 		return assign.AsFloat64Ptr(val, &o.def)
+		{{- else if eq .Name "DateOnly" "TimeOnly" "DatetimeOnly" "Datetime" -}}
+		return assign.AsTimeStringPtr(val, &o.def)
 		{{- else if eq .DefTypeName "String" -}}
 		return assign.AsStringPtr(val, &o.def)
 		{{- else if .IsDefPtr -}}
diff --git a/v0/internal/raml/x-gen-ex-dateonly.go b/v0/internal/raml/x-gen-ex-dateonly.go
index f999b1f..0b2bd6a 100644
--- a/v0/internal/raml/x-gen-ex-dateonly.go
+++ b/v0/internal/raml/x-gen-ex-dateonly.go
@@ -193,10 +193,5 @@ func (e *DateOnlyExample) expand() bool {
 }
 
 func (e *DateOnlyExample) assignVal(val *yaml.Node) error {
-	if err := xyml.RequireString(val); err != nil {
-		return err
-	}
-	e.value = &val.Value
-
-	return nil
+	return assign.AsTimeStringPtr(val, &e.value)
 }
diff --git a/v0/internal/raml/x-gen-ex-datetime.go b/v0/internal/raml/x-gen-ex-datetime.go
index 45921b0..9a6d63e 100644
--- a/v0/internal/raml/x-gen-ex-datetime.go
+++ b/v0/internal/raml/x-gen-ex-datetime.go
@@ -193,10 +193,5 @@ func (e *DatetimeExample) expand() bool {
 }
 
 func (e *DatetimeExample) assignVal(val *yaml.Node) error {
-	if err := xyml.RequireString(val); err != nil {
-		return err
-	}
-	e.value = &val.Value
-
-	return nil
+	return assign.AsTimeStringPtr(val, &e.value)
 }
diff --git a/v0/internal/raml/x-gen-ex-datetimeonly.go b/v0/internal/raml/x-gen-ex-datetimeonly.go
index 546e5f1..06ba358 100644
--- a/v0/internal/raml/x-gen-ex-datetimeonly.go
+++ b/v0/internal/raml/x-gen-ex-datetimeonly.go
@@ -193,10 +193,5 @@ func (e *DatetimeOnlyExample) expand() bool {
 }
 
 func (e *DatetimeOnlyExample) assignVal(val *yaml.Node) error {
-	if err := xyml.RequireString(val); err != nil {
-		return err
-	}
-	e.value = &val.Value
-
-	return nil
+	return assign.AsTimeStringPtr(val, &e.value)
 }
diff --git a/v0/internal/raml/x-gen-ex-timeonly.go b/v0/internal/raml/x-gen-ex-timeonly.go
index 1c03fcf..f33f1f2 100644
--- a/v0/internal/raml/x-gen-ex-timeonly.go
+++ b/v0/internal/raml/x-gen-ex-timeonly.go
@@ -193,10 +193,5 @@ func (e *TimeOnlyExample) expand() bool {
 }
 
 func (e *TimeOnlyExample) assignVal(val *yaml.Node) error {
-	if err := xyml.RequireString(val); err != nil {
-		return err
-	}
-	e.value = &val.Value
-
-	return nil
+	return assign.AsTimeStringPtr(val, &e.value)
 }
diff --git a/v0/internal/raml/x-gen-type-date-only.go b/v0/internal/raml/x-gen-type-date-only.go
index 8a54c62..1f15349 100644
--- a/v0/internal/raml/x-gen-type-date-only.go
+++ b/v0/internal/raml/x-gen-type-date-only.go
@@ -215,8 +215,7 @@ func (o *DateOnlyType) assign(key, val *yaml.Node) error {
 		return UnmarshalDateOnlyExampleMapRAML(o.examples, val)
 	case rmeta.KeyEnum:
 		return xyml.SequenceForEach(val, func(cur *yaml.Node) error {
-			if val, err := xyml.ToString(cur); err != nil {
-
+			if val, err := assign.ToTimeString(cur); err != nil {
 				return err
 			} else {
 				o.enum = append(o.enum, val)
@@ -226,7 +225,7 @@ func (o *DateOnlyType) assign(key, val *yaml.Node) error {
 		})
 		return nil
 	case rmeta.KeyDefault:
-		return assign.AsStringPtr(val, &o.def)
+		return assign.AsTimeStringPtr(val, &o.def)
 	case rmeta.KeyRequired:
 		return assign.AsBool(val, &o.required)
 	}
diff --git a/v0/internal/raml/x-gen-type-datetime-only.go b/v0/internal/raml/x-gen-type-datetime-only.go
index f4c3c1e..3834bb3 100644
--- a/v0/internal/raml/x-gen-type-datetime-only.go
+++ b/v0/internal/raml/x-gen-type-datetime-only.go
@@ -215,8 +215,7 @@ func (o *DatetimeOnlyType) assign(key, val *yaml.Node) error {
 		return UnmarshalDatetimeOnlyExampleMapRAML(o.examples, val)
 	case rmeta.KeyEnum:
 		return xyml.SequenceForEach(val, func(cur *yaml.Node) error {
-			if val, err := xyml.ToString(cur); err != nil {
-
+			if val, err := assign.ToTimeString(cur); err != nil {
 				return err
 			} else {
 				o.enum = append(o.enum, val)
@@ -226,7 +225,7 @@ func (o *DatetimeOnlyType) assign(key, val *yaml.Node) error {
 		})
 		return nil
 	case rmeta.KeyDefault:
-		return assign.AsStringPtr(val, &o.def)
+		return assign.AsTimeStringPtr(val, &o.def)
 	case rmeta.KeyRequired:
 		return assign.AsBool(val, &o.required)
 	}
diff --git a/v0/internal/raml/x-gen-type-datetime.go b/v0/internal/raml/x-gen-type-datetime.go
index 2242f08..1b5e0c6 100644
--- a/v0/internal/raml/x-gen-type-datetime.go
+++ b/v0/internal/raml/x-gen-type-datetime.go
@@ -230,8 +230,7 @@ func (o *DatetimeType) assign(key, val *yaml.Node) error {
 		return UnmarshalDatetimeExampleMapRAML(o.examples, val)
 	case rmeta.KeyEnum:
 		return xyml.SequenceForEach(val, func(cur *yaml.Node) error {
-			if val, err := xyml.ToString(cur); err != nil {
-
+			if val, err := assign.ToTimeString(cur); err != nil {
 				return err
 			} else {
 				o.enum = append(o.enum, val)
@@ -241,7 +240,7 @@ func (o *DatetimeType) assign(key, val *yaml.Node) error {
 		})
 		return nil
 	case rmeta.KeyDefault:
-		return assign.AsStringPtr(val, &o.def)
+		return assign.AsTimeStringPtr(val, &o.def)
 	case rmeta.KeyRequired:
 		return assign.AsBool(val, &o.required)
 	}
diff --git a/v0/internal/raml/x-gen-type-number.go b/v0/internal/raml/x-gen-type-number.go
index 6168010..418d774 100644
--- a/v0/internal/raml/x-gen-type-number.go
+++ b/v0/internal/raml/x-gen-type-number.go
@@ -279,6 +279,7 @@ func (o *NumberType) assign(key, val *yaml.Node) error {
 	case rmeta.KeyEnum:
 		return xyml.SequenceForEach(val, func(cur *yaml.Node) error {
 			if val, err := assign.ToFloat64(cur); err != nil {
+
 				return err
 			} else {
 				o.enum = append(o.enum, val)
diff --git a/v0/internal/raml/x-gen-type-time-only.go b/v0/internal/raml/x-gen-type-time-only.go
index 4c32e97..e90f88b 100644
--- a/v0/internal/raml/x-gen-type-time-only.go
+++ b/v0/internal/raml/x-gen-type-time-only.go
@@ -215,8 +215,7 @@ func (o *TimeOnlyType) assign(key, val *yaml.Node) error {
 		return UnmarshalTimeOnlyExampleMapRAML(o.examples, val)
 	case rmeta.KeyEnum:
 		return xyml.SequenceForEach(val, func(cur *yaml.Node) error {
-			if val, err := xyml.ToString(cur); err != nil {
-
+			if val, err := assign.ToTimeString(cur); err != nil {
 				return err
 			} else {
 				o.enum = append(o.enum, val)
@@ -226,7 +225,7 @@ func (o *TimeOnlyType) assign(key, val *yaml.Node) error {
 		})
 		return nil
 	case rmeta.KeyDefault:
-		return assign.AsStringPtr(val, &o.def)
+		return assign.AsTimeStringPtr(val, &o.def)
 	case rmeta.KeyRequired:
 		return assign.AsBool(val, &o.required)
 	}
diff --git a/v0/internal/util/assign/time.go b/v0/internal/util/assign/time.go
new file mode 100644
index 0000000..9b468a1
--- /dev/null
+++ b/v0/internal/util/assign/time.go
@@ -0,0 +1,27 @@
+package assign
+
+import (
+	"github.com/Foxcapades/lib-go-yaml/v1/pkg/xyml"
+	"gopkg.in/yaml.v3"
+)
+
+// ToTimeString reads a date or time value, which YAML takes for a timestamp
+// rather than for a string if it is not quoted.
+func ToTimeString(v *yaml.Node) (string, error) {
+	if xyml.IsTimestamp(v) {
+		return v.Value, nil
+	}
+
+	return xyml.ToString(v)
+}
+
+// Helper function for date and time values in assign functions
+func AsTimeStringPtr(v *yaml.Node, ptr **string) error {
+	if val, err := ToTimeString(v); err != nil {
+		return err
+	} else {
+		*ptr = &val
+	}
+
+	return nil
+}
-- 
2.43.0


From 635444d4013394dc260a8986e9b07692710d2d87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:01 +0000
Subject: [PATCH 25/44] fix: write Go maps in a stable order

---
 v0/internal/util/yaml.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/v0/internal/util/yaml.go b/v0/internal/util/yaml.go
index 942e89d..445759c 100644
--- a/v0/internal/util/yaml.go
+++ b/v0/internal/util/yaml.go
@@ -1,7 +1,9 @@
 package util
 
 import (
+	"fmt"
 	"reflect"
+	"sort"
 	"strconv"
 	"strings"
 
@@ -52,8 +54,13 @@ func ToYamlNode(val interface{}) (*yaml.Node, error) {
 		return out, nil
 	case reflect.Map:
 		out := xyml.NewMapNode(ref.Len())
-		for it := ref.MapRange(); it.Next(); {
-			if err := MapAppend(out, it.Key().Interface(), it.Value().Interface()); err != nil {
+		keys := ref.MapKeys()
+		// Go maps have no order, write them in a stable one.
+		sort.Slice(keys, func(a, b int) bool {
+			return fmt.Sprint(keys[a].Interface()) < fmt.Sprint(keys[b].Interface())
+		})
+		for _, key := range keys {
+			if err := MapAppend(out, key.Interface(), ref.MapIndex(key).Interface()); err != nil {
 				return nil, err
 			}
 		}
-- 
2.43.0


From 11a941db4956054d4350aa89590f88f4ad08fbca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:04 +0000
Subject: [PATCH 26/44] fix: write infinite numbers the way YAML spells them

---
 v0/internal/util/yaml.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/v0/internal/util/yaml.go b/v0/internal/util/yaml.go
index 445759c..2bd7eab 100644
--- a/v0/internal/util/yaml.go
+++ b/v0/internal/util/yaml.go
@@ -2,6 +2,7 @@ package util
 
 import (
 	"fmt"
+	"math"
 	"reflect"
 	"sort"
 	"strconv"
@@ -77,8 +78,15 @@ func ToYamlNode(val interface{}) (*yaml.Node, error) {
 func floatToYamlNode(val float64, bits int) *yaml.Node {
 	str := strconv.FormatFloat(val, 'g', -1, bits)
 
-	// Keep whole numbers recognizable as floats.
-	if strings.Trim(str, "-0123456789") == "" {
+	switch {
+	case math.IsInf(val, 1):
+		str = ".inf"
+	case math.IsInf(val, -1):
+		str = "-.inf"
+	case math.IsNaN(val):
+		str = ".nan"
+	case strings.Trim(str, "-0123456789") == "":
+		// Keep whole numbers recognizable as floats.
 		str += ".0"
 	}
 
-- 
2.43.0


From d530f71df48c95a23dccc6aefce9088072b00a07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:39 +0000
Subject: [PATCH 27/44] fix: indent single declarations like documents

---
 v0/internal/raml/DataType.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/v0/internal/raml/DataType.go b/v0/internal/raml/DataType.go
index a695e8a..d4fdac0 100644
--- a/v0/internal/raml/DataType.go
+++ b/v0/internal/raml/DataType.go
@@ -8,6 +8,7 @@ import (
 	"github.com/Foxcapades/lib-go-yaml/v1/pkg/xyml"
 	"github.com/sirupsen/logrus"
 	"gopkg.in/yaml.v3"
+	"strings"
 )
 
 func NewDataType(kind rmeta.DataTypeKind, self concreteType) *DataType {
@@ -57,8 +58,14 @@ func (d *DataType) ToRAML() (string, error) {
 		return "", err
 	}
 
-	raw, err := yaml.Marshal(out)
-	return string(raw), err
+	buf := strings.Builder{}
+	enc := yaml.NewEncoder(&buf)
+	enc.SetIndent(2)
+	if err := enc.Encode(out); err != nil {
+		return "", err
+	}
+
+	return buf.String(), nil
 }
 
 func (d DataType) ToYAML() (*yaml.Node, error) {
-- 
2.43.0


From 32040a825aa8747e7142fc3d4d49412281d4210e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:26 +0000
Subject: [PATCH 28/44] fix: report read errors instead of panicking

---
 v0/pkg/raml/rparse/parse-api.go | 12 +++++++++++-
 v0/pkg/raml/rparse/parse-lib.go | 12 +++++++++++-
 2 files changed, 22 insertions(+), 2 deletions(-)

diff --git a/v0/pkg/raml/rparse/parse-api.go b/v0/pkg/raml/rparse/parse-api.go
index cf1e7bd..8627dc3 100644
--- a/v0/pkg/raml/rparse/parse-api.go
+++ b/v0/pkg/raml/rparse/parse-api.go
@@ -1,16 +1,26 @@
 package rparse
 
 import (
+	"bytes"
 	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml"
 	"gopkg.in/yaml.v3"
 	"io"
+	"io/ioutil"
 
 	impl "github.com/Foxcapades/lib-go-raml/v0/internal/raml"
 )
 
 func ParseApiDoc(red io.Reader) (raml.APISpec, error) {
 	out := impl.NewApiSpec()
-	dec := yaml.NewDecoder(red)
+
+	// The YAML decoder does not reliably report read errors, so the input is read
+	// up front.
+	raw, err := ioutil.ReadAll(red)
+	if err != nil {
+		return nil, err
+	}
+
+	dec := yaml.NewDecoder(bytes.NewReader(raw))
 
 	if err := dec.Decode(out); err != nil {
 		return nil, err
diff --git a/v0/pkg/raml/rparse/parse-lib.go b/v0/pkg/raml/rparse/parse-lib.go
index e4262fc..9ce6398 100644
--- a/v0/pkg/raml/rparse/parse-lib.go
+++ b/v0/pkg/raml/rparse/parse-lib.go
@@ -1,15 +1,25 @@
 package rparse
 
 import (
+	"bytes"
 	impl "github.com/Foxcapades/lib-go-raml/v0/internal/raml"
 	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml"
 	"gopkg.in/yaml.v3"
 	"io"
+	"io/ioutil"
 )
 
 func ParseLibrary(red io.Reader) (raml.Library, error) {
 	out := impl.NewLibrary()
-	dec := yaml.NewDecoder(red)
+
+	// The YAML decoder does not reliably report read errors, so the input is read
+	// up front.
+	raw, err := ioutil.ReadAll(red)
+	if err != nil {
+		return nil, err
+	}
+
+	dec := yaml.NewDecoder(bytes.NewReader(raw))
 
 	if err := dec.Decode(out); err != nil && err != io.EOF {
 		return nil, err
-- 
2.43.0


From ff25562c259d84ee7b379557d444e8045c03c412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:41 +0000
Subject: [PATCH 29/44] fix: report malformed yaml as an error instead of
 panicking

---
 v0/pkg/raml/rparse/decode.go    | 44 +++++++++++++++++++++++++++++++++
 v0/pkg/raml/rparse/parse-api.go | 14 +----------
 v0/pkg/raml/rparse/parse-lib.go | 14 +----------
 3 files changed, 46 insertions(+), 26 deletions(-)
 create mode 100644 v0/pkg/raml/rparse/decode.go

diff --git a/v0/pkg/raml/rparse/decode.go b/v0/pkg/raml/rparse/decode.go
new file mode 100644
index 0000000..b11be52
--- /dev/null
+++ b/v0/pkg/raml/rparse/decode.go
@@ -0,0 +1,44 @@
+package rparse
+
+import (
+	"bytes"
+	"fmt"
+	"io"
+	"io/ioutil"
+
+	"gopkg.in/yaml.v3"
+)
+
+// decode reads a single YAML document from the given reader into out.
+func decode(red io.Reader, out interface{}) error {
+	// The YAML decoder does not reliably report read errors, so the input is read
+	// up front.
+	raw, err := ioutil.ReadAll(red)
+	if err != nil {
+		return err
+	}
+
+	root, err := decodeNode(raw)
+	if err != nil {
+		return err
+	}
+
+	return root.Decode(out)
+}
+
+// decodeNode parses the first YAML document in the given input.
+//
+// The YAML parser panics on some malformed inputs, which is reported as an
+// error here.
+func decodeNode(raw []byte) (root *yaml.Node, err error) {
+	defer func() {
+		if e := recover(); e != nil {
+			root, err = nil, fmt.Errorf("invalid yaml: %v", e)
+		}
+	}()
+
+	root = new(yaml.Node)
+	err = yaml.NewDecoder(bytes.NewReader(raw)).Decode(root)
+
+	return
+}
diff --git a/v0/pkg/raml/rparse/parse-api.go b/v0/pkg/raml/rparse/parse-api.go
index 8627dc3..10b9dc5 100644
--- a/v0/pkg/raml/rparse/parse-api.go
+++ b/v0/pkg/raml/rparse/parse-api.go
@@ -1,11 +1,8 @@
 package rparse
 
 import (
-	"bytes"
 	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml"
-	"gopkg.in/yaml.v3"
 	"io"
-	"io/ioutil"
 
 	impl "github.com/Foxcapades/lib-go-raml/v0/internal/raml"
 )
@@ -13,16 +10,7 @@ import (
 func ParseApiDoc(red io.Reader) (raml.APISpec, error) {
 	out := impl.NewApiSpec()
 
-	// The YAML decoder does not reliably report read errors, so the input is read
-	// up front.
-	raw, err := ioutil.ReadAll(red)
-	if err != nil {
-		return nil, err
-	}
-
-	dec := yaml.NewDecoder(bytes.NewReader(raw))
-
-	if err := dec.Decode(out); err != nil {
+	if err := decode(red, out); err != nil {
 		return nil, err
 	}
 
diff --git a/v0/pkg/raml/rparse/parse-lib.go b/v0/pkg/raml/rparse/parse-lib.go
index 9ce6398..23ef193 100644
--- a/v0/pkg/raml/rparse/parse-lib.go
+++ b/v0/pkg/raml/rparse/parse-lib.go
@@ -1,27 +1,15 @@
 package rparse
 
 import (
-	"bytes"
 	impl "github.com/Foxcapades/lib-go-raml/v0/internal/raml"
 	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml"
-	"gopkg.in/yaml.v3"
 	"io"
-	"io/ioutil"
 )
 
 func ParseLibrary(red io.Reader) (raml.Library, error) {
 	out := impl.NewLibrary()
 
-	// The YAML decoder does not reliably report read errors, so the input is read
-	// up front.
-	raw, err := ioutil.ReadAll(red)
-	if err != nil {
-		return nil, err
-	}
-
-	dec := yaml.NewDecoder(bytes.NewReader(raw))
-
-	if err := dec.Decode(out); err != nil && err != io.EOF {
+	if err := decode(red, out); err != nil && err != io.EOF {
 		return nil, err
 	}
 
-- 
2.43.0


From d3ea841929fe0e67a5c107b8056c0443d4e723c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:41 +0000
Subject: [PATCH 30/44] fix: write Go maps whose keys look alike in a stable
 order

---
 v0/internal/util/yaml.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/v0/internal/util/yaml.go b/v0/internal/util/yaml.go
index 2bd7eab..65de272 100644
--- a/v0/internal/util/yaml.go
+++ b/v0/internal/util/yaml.go
@@ -58,7 +58,11 @@ func ToYamlNode(val interface{}) (*yaml.Node, error) {
 		keys := ref.MapKeys()
 		// Go maps have no order, write them in a stable one.
 		sort.Slice(keys, func(a, b int) bool {
-			return fmt.Sprint(keys[a].Interface()) < fmt.Sprint(keys[b].Interface())
+			x, y := keys[a].Interface(), keys[b].Interface()
+			if i, j := fmt.Sprint(x), fmt.Sprint(y); i != j {
+				return i < j
+			}
+			return fmt.Sprintf("%T", x) < fmt.Sprintf("%T", y)
 		})
 		for _, key := range keys {
 			if err := MapAppend(out, key.Interface(), ref.MapIndex(key).Interface()); err != nil {
-- 
2.43.0


From 8858cb641091ce1032a707560b1e277e490240fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:43 +0000
Subject: [PATCH 31/44] fix: write values of named scalar types instead of
 panicking

---
 v0/internal/util/yaml.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/v0/internal/util/yaml.go b/v0/internal/util/yaml.go
index 65de272..17d6f3a 100644
--- a/v0/internal/util/yaml.go
+++ b/v0/internal/util/yaml.go
@@ -39,6 +39,14 @@ func ToYamlNode(val interface{}) (*yaml.Node, error) {
 	ref := reflect.ValueOf(val)
 
 	switch ref.Kind() {
+	case reflect.String:
+		return xyml.NewStringNode(ref.String()), nil
+	case reflect.Bool:
+		return xyml.NewBoolNode(ref.Bool()), nil
+	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
+		return xyml.NewIntNode(ref.Int(), 10), nil
+	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
+		return xyml.ToYamlNode(ref.Uint())
 	case reflect.Float32:
 		return floatToYamlNode(ref.Float(), 32), nil
 	case reflect.Float64:
-- 
2.43.0


From aa1c0d9c5d650065d0924862d40ad42d23e0c73b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:49 +0000
Subject: [PATCH 32/44] fix: write nil keys and nil nodes as null

---
 v0/internal/util/yaml.go | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/v0/internal/util/yaml.go b/v0/internal/util/yaml.go
index 17d6f3a..e68538d 100644
--- a/v0/internal/util/yaml.go
+++ b/v0/internal/util/yaml.go
@@ -25,14 +25,26 @@ func MapAppend(y *yaml.Node, k, v interface{}) error {
 		return err
 	}
 
+	// A null without a text would be written as an empty string there.
+	if key.Kind == yaml.ScalarNode && key.ShortTag() == "!!null" && key.Value == "" {
+		null := *key
+		null.Value = "null"
+		key = &null
+	}
+
 	return xyml.MapAppendNode(y, key, val)
 }
 
 // ToYamlNode does the same as xyml.ToYamlNode but keeps the full precision of
 // floating point values.
 func ToYamlNode(val interface{}) (*yaml.Node, error) {
-	switch val.(type) {
-	case nil, *yaml.Node, xyml.Marshaler:
+	switch cur := val.(type) {
+	case *yaml.Node:
+		if cur == nil {
+			return xyml.NewNullNode(), nil
+		}
+		return cur, nil
+	case nil, xyml.Marshaler:
 		return xyml.ToYamlNode(val)
 	}
 
-- 
2.43.0


From 9c750e61f149947d54d43bde99aec6ce759fff6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:50 +0000
Subject: [PATCH 33/44] fix: tell expanded examples by what is written

---
 v0/internal/raml/example.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/v0/internal/raml/example.go b/v0/internal/raml/example.go
index 50a9916..154cef1 100644
--- a/v0/internal/raml/example.go
+++ b/v0/internal/raml/example.go
@@ -1,6 +1,7 @@
 package raml
 
 import (
+	"github.com/Foxcapades/lib-go-raml/v0/internal/util"
 	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml/rmeta"
 	"github.com/Foxcapades/lib-go-yaml/v1/pkg/xyml"
 	"gopkg.in/yaml.v3"
@@ -28,6 +29,6 @@ func isExpandedExample(y *yaml.Node) bool {
 // needsExpandedExample returns whether the given example value would be taken
 // for the expanded form of an example if it were written on its own.
 func needsExpandedExample(val interface{}) bool {
-	y, err := xyml.ToYamlNode(val)
+	y, err := util.ToYamlNode(val)
 	return err == nil && isExpandedExample(y)
 }
-- 
2.43.0


From b5e3fa6d5056943980853415880cceccb2f234aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:12 +0000
Subject: [PATCH 34/44] fix: report keys that a JSON object cannot hold both of

---
 v0/pkg/raml/AnyMap.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/v0/pkg/raml/AnyMap.go b/v0/pkg/raml/AnyMap.go
index e8f75e8..65c0210 100644
--- a/v0/pkg/raml/AnyMap.go
+++ b/v0/pkg/raml/AnyMap.go
@@ -122,8 +122,15 @@ func (i implAnyMap) MarshalJSON() ([]byte, error) {
 	}
 
 	out := make(map[string]interface{}, len(i.index))
-	for k, v := range i.index {
-		out[fmt.Sprint(k)] = v
+	for j := range i.ordered {
+		key := fmt.Sprint(i.ordered[j].Key)
+
+		// A JSON object cannot hold both of two keys that print alike.
+		if _, exists := out[key]; exists {
+			return nil, fmt.Errorf("more than one key is written as %q in JSON", key)
+		}
+
+		out[key] = i.ordered[j].Val
 	}
 
 	return json.Marshal(out)
-- 
2.43.0


From 4377b146b218f0012af1f86c8a4acc20c2ddf52c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:52 +0000
Subject: [PATCH 35/44] fix: refuse unknown facets of types whose key is no
 scalar

---
 v0/internal/raml/DataType.go      | 3 +--
 v0/internal/raml/in-components.go | 7 ++++++-
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/v0/internal/raml/DataType.go b/v0/internal/raml/DataType.go
index d4fdac0..82e7aee 100644
--- a/v0/internal/raml/DataType.go
+++ b/v0/internal/raml/DataType.go
@@ -136,6 +136,5 @@ func (d *DataType) assign(key, val *yaml.Node) error {
 		return assign.AsBool(val, &d.required)
 	}
 
-	d.hasExtra.in(key, val)
-	return nil
+	return d.hasExtra.in(key, val)
 }
diff --git a/v0/internal/raml/in-components.go b/v0/internal/raml/in-components.go
index c711cfb..53de4f7 100644
--- a/v0/internal/raml/in-components.go
+++ b/v0/internal/raml/in-components.go
@@ -2,6 +2,7 @@ package raml
 
 import (
 	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml"
+	"github.com/Foxcapades/lib-go-yaml/v1/pkg/xyml"
 	"gopkg.in/yaml.v3"
 )
 
@@ -59,6 +60,10 @@ func (h *hasExtra) out(out raml.AnyMap) {
 	h.mp.ForEach(func(k, v interface{}) { out.Put(k, v) })
 }
 
-func (h *hasExtra) in(k, v *yaml.Node) {
+func (h *hasExtra) in(k, v *yaml.Node) error {
+	if err := xyml.RequireScalar(k); err != nil {
+		return err
+	}
 	h.mp.Put(k.Value, v)
+	return nil
 }
-- 
2.43.0


From 615e4c05669da2913ff3f87d7ae84af70f7ff505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:16 +0000
Subject: [PATCH 36/44] fix: read include types from their short form

---
 v0/internal/raml/DataType.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/v0/internal/raml/DataType.go b/v0/internal/raml/DataType.go
index 82e7aee..42d561b 100644
--- a/v0/internal/raml/DataType.go
+++ b/v0/internal/raml/DataType.go
@@ -96,9 +96,8 @@ func (d *DataType) MarshalRAML(out raml.AnyMap) (bool, error) {
 }
 
 func (d *DataType) UnmarshalRAML(val *yaml.Node) error {
-	if xyml.IsString(val) {
-		d.schema = val.Value
-		return nil
+	if xyml.IsString(val) || val.Tag == "!include" {
+		return d.self.assign(xyml.NewStringNode(rmeta.KeyType), val)
 	}
 
 	if xyml.IsSequence(val) {
-- 
2.43.0


From 0021190a41529429320ff6fb74c04cdcf07a2ce9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:58 +0000
Subject: [PATCH 37/44] fix: resolve YAML aliases when reading documents

---
 v0/pkg/raml/rparse/decode.go | 70 ++++++++++++++++++++++++++++++++++++
 1 file changed, 70 insertions(+)

diff --git a/v0/pkg/raml/rparse/decode.go b/v0/pkg/raml/rparse/decode.go
index b11be52..6182f5d 100644
--- a/v0/pkg/raml/rparse/decode.go
+++ b/v0/pkg/raml/rparse/decode.go
@@ -2,6 +2,7 @@ package rparse
 
 import (
 	"bytes"
+	"errors"
 	"fmt"
 	"io"
 	"io/ioutil"
@@ -23,6 +24,10 @@ func decode(red io.Reader, out interface{}) error {
 		return err
 	}
 
+	if err := resolveAliases(root); err != nil {
+		return err
+	}
+
 	return root.Decode(out)
 }
 
@@ -42,3 +47,68 @@ func decodeNode(raw []byte) (root *yaml.Node, err error) {
 
 	return
 }
+
+const (
+	// maxAliased limits the number of nodes that may be created by resolving
+	// aliases, as the size of the result can be exponential in that of the input.
+	maxAliased = 1000000
+
+	// maxDepth is the depth up to which the YAML parser itself accepts nodes.
+	maxDepth = 10000
+)
+
+// resolveAliases replaces every alias in the given tree with a copy of the node
+// it refers to.
+//
+// Nodes do not keep the place they were read from, so an alias could otherwise
+// be separated from its anchor.
+func resolveAliases(root *yaml.Node) error {
+	var (
+		left    = maxAliased
+		open    = map[*yaml.Node]bool{}
+		resolve func(n *yaml.Node, depth int) error
+		clone   func(n *yaml.Node, depth int) *yaml.Node
+	)
+
+	clone = func(n *yaml.Node, depth int) *yaml.Node {
+		left--
+		if depth > maxDepth {
+			left = 0
+		}
+		out := *n
+		out.Content = nil
+		for i := 0; i < len(n.Content) && left > 0; i++ {
+			out.Content = append(out.Content, clone(n.Content[i], depth+1))
+		}
+		return &out
+	}
+
+	resolve = func(n *yaml.Node, depth int) error {
+		open[n] = true
+		for i, v := range n.Content {
+			if v.Kind != yaml.AliasNode {
+				if err := resolve(v, depth+1); err != nil {
+					return err
+				}
+				continue
+			}
+
+			if open[v.Alias] {
+				return fmt.Errorf("anchor '%s' value contains itself", v.Value)
+			}
+
+			out := clone(v.Alias, depth+1)
+			if left <= 0 {
+				return errors.New("document contains excessive aliasing")
+			}
+			out.HeadComment, out.LineComment, out.FootComment = v.HeadComment, v.LineComment, v.FootComment
+			out.Line, out.Column = v.Line, v.Column
+			n.Content[i] = out
+		}
+		delete(open, n)
+		n.Anchor = ""
+		return nil
+	}
+
+	return resolve(root, 0)
+}
-- 
2.43.0


From a39895e63603cdd18fe7058eb444aa5c970c971e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:04 +0000
Subject: [PATCH 38/44] fix: do not panic in PutIfNotNil on arrays

Arrays are never nil, and asking reflection panics.
---
 v0/internal/util/nil.go      | 2 +-
 v0/pkg/raml/AnyExampleMap.go | 2 +-
 v0/pkg/raml/AnyMap.go        | 2 +-
 v0/pkg/raml/UntypedMap.go    | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/v0/internal/util/nil.go b/v0/internal/util/nil.go
index b32639d..6bc3dc0 100644
--- a/v0/internal/util/nil.go
+++ b/v0/internal/util/nil.go
@@ -10,7 +10,7 @@ func IsNil(val interface{}) bool {
 	ref := reflect.ValueOf(val)
 
 	switch ref.Kind() {
-	case reflect.Ptr, reflect.Map, reflect.Slice, reflect.Array:
+	case reflect.Ptr, reflect.Map, reflect.Slice, reflect.Chan, reflect.Func:
 		return ref.IsNil()
 	case reflect.Invalid:
 		return true
diff --git a/v0/pkg/raml/AnyExampleMap.go b/v0/pkg/raml/AnyExampleMap.go
index 32608cb..79d184d 100644
--- a/v0/pkg/raml/AnyExampleMap.go
+++ b/v0/pkg/raml/AnyExampleMap.go
@@ -165,7 +165,7 @@ func (i *implAnyExampleMap) Put(k string, v interface{}) AnyExampleMap {
 }
 
 func (i *implAnyExampleMap) PutIfNotNil(k string, v interface{}) AnyExampleMap {
-	if !gomp.IsNil(v) {
+	if !util.IsNil(v) {
 		return i.Put(k, gomp.Deref(v))
 	}
 
diff --git a/v0/pkg/raml/AnyMap.go b/v0/pkg/raml/AnyMap.go
index 65c0210..5a9ae3e 100644
--- a/v0/pkg/raml/AnyMap.go
+++ b/v0/pkg/raml/AnyMap.go
@@ -172,7 +172,7 @@ func (i *implAnyMap) Put(k interface{}, v interface{}) AnyMap {
 }
 
 func (i *implAnyMap) PutIfNotNil(k interface{}, v interface{}) AnyMap {
-	if !gomp.IsNil(v) {
+	if !util.IsNil(v) {
 		return i.Put(k, gomp.Deref(v))
 	}
 
diff --git a/v0/pkg/raml/UntypedMap.go b/v0/pkg/raml/UntypedMap.go
index 4ecb54f..47f071b 100644
--- a/v0/pkg/raml/UntypedMap.go
+++ b/v0/pkg/raml/UntypedMap.go
@@ -165,7 +165,7 @@ func (i *implUntypedMap) Put(k string, v interface{}) UntypedMap {
 }
 
 func (i *implUntypedMap) PutIfNotNil(k string, v interface{}) UntypedMap {
-	if !gomp.IsNil(v) {
+	if !util.IsNil(v) {
 		return i.Put(k, gomp.Deref(v))
 	}
 
-- 
2.43.0


From f5ab308275cb143f9a6be9be3b857277fb5853f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:09 +0000
Subject: [PATCH 39/44] fix: keep nodes and marshalers put into maps with
 PutIfNotNil

They were copied out of their pointers, and a node or a value that
serializes itself through its pointer could then not be written.
---
 v0/internal/util/nil.go      | 24 +++++++++++++++++++++++-
 v0/pkg/raml/AnyExampleMap.go |  3 +--
 v0/pkg/raml/AnyMap.go        |  3 +--
 v0/pkg/raml/UntypedMap.go    |  3 +--
 4 files changed, 26 insertions(+), 7 deletions(-)

diff --git a/v0/internal/util/nil.go b/v0/internal/util/nil.go
index 6bc3dc0..8eda30e 100644
--- a/v0/internal/util/nil.go
+++ b/v0/internal/util/nil.go
@@ -1,6 +1,11 @@
 package util
 
-import "reflect"
+import (
+	"reflect"
+
+	"github.com/Foxcapades/lib-go-yaml/v1/pkg/xyml"
+	"gopkg.in/yaml.v3"
+)
 
 func IsNil(val interface{}) bool {
 	if val == nil {
@@ -18,3 +23,20 @@ func IsNil(val interface{}) bool {
 
 	return false
 }
+
+// Deref returns the value the given pointer points to.
+//
+// Nodes and values that serialize themselves are used through their pointers
+// and are returned as they are.
+func Deref(val interface{}) interface{} {
+	switch val.(type) {
+	case *yaml.Node, xyml.Marshaler:
+		return val
+	}
+
+	if ref := reflect.ValueOf(val); ref.Kind() == reflect.Ptr {
+		return ref.Elem().Interface()
+	}
+
+	return val
+}
diff --git a/v0/pkg/raml/AnyExampleMap.go b/v0/pkg/raml/AnyExampleMap.go
index 79d184d..97d9f12 100644
--- a/v0/pkg/raml/AnyExampleMap.go
+++ b/v0/pkg/raml/AnyExampleMap.go
@@ -4,7 +4,6 @@ import (
 	"encoding/json"
 	"fmt"
 
-	"github.com/Foxcapades/gomp/v1/pkg/gomp"
 	"github.com/Foxcapades/goop/v1/pkg/option"
 	"github.com/Foxcapades/lib-go-raml/v0/internal/util"
 	"github.com/Foxcapades/lib-go-yaml/v1/pkg/xyml"
@@ -166,7 +165,7 @@ func (i *implAnyExampleMap) Put(k string, v interface{}) AnyExampleMap {
 
 func (i *implAnyExampleMap) PutIfNotNil(k string, v interface{}) AnyExampleMap {
 	if !util.IsNil(v) {
-		return i.Put(k, gomp.Deref(v))
+		return i.Put(k, util.Deref(v))
 	}
 
 	return i
diff --git a/v0/pkg/raml/AnyMap.go b/v0/pkg/raml/AnyMap.go
index 5a9ae3e..1da5e66 100644
--- a/v0/pkg/raml/AnyMap.go
+++ b/v0/pkg/raml/AnyMap.go
@@ -4,7 +4,6 @@ import (
 	"encoding/json"
 	"fmt"
 
-	"github.com/Foxcapades/gomp/v1/pkg/gomp"
 	"github.com/Foxcapades/goop/v1/pkg/option"
 	"github.com/Foxcapades/lib-go-raml/v0/internal/util"
 	"github.com/Foxcapades/lib-go-yaml/v1/pkg/xyml"
@@ -173,7 +172,7 @@ func (i *implAnyMap) Put(k interface{}, v interface{}) AnyMap {
 
 func (i *implAnyMap) PutIfNotNil(k interface{}, v interface{}) AnyMap {
 	if !util.IsNil(v) {
-		return i.Put(k, gomp.Deref(v))
+		return i.Put(k, util.Deref(v))
 	}
 
 	return i
diff --git a/v0/pkg/raml/UntypedMap.go b/v0/pkg/raml/UntypedMap.go
index 47f071b..dec7839 100644
--- a/v0/pkg/raml/UntypedMap.go
+++ b/v0/pkg/raml/UntypedMap.go
@@ -4,7 +4,6 @@ import (
 	"encoding/json"
 	"fmt"
 
-	"github.com/Foxcapades/gomp/v1/pkg/gomp"
 	"github.com/Foxcapades/goop/v1/pkg/option"
 	"github.com/Foxcapades/lib-go-raml/v0/internal/util"
 	"github.com/Foxcapades/lib-go-yaml/v1/pkg/xyml"
@@ -166,7 +165,7 @@ func (i *implUntypedMap) Put(k string, v interface{}) UntypedMap {
 
 func (i *implUntypedMap) PutIfNotNil(k string, v interface{}) UntypedMap {
 	if !util.IsNil(v) {
-		return i.Put(k, gomp.Deref(v))
+		return i.Put(k, util.Deref(v))
 	}
 
 	return i
-- 
2.43.0


From 8e373f6e3f5036d171cfc0fb2a51c69f5eb603a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:38 +0000
Subject: [PATCH 40/44] fix: write nulls without a text in flow style as nulls,
 not as empty strings

---
 v0/internal/util/yaml.go | 44 ++++++++++++++++++++++++++++++++++++++--
 1 file changed, 42 insertions(+), 2 deletions(-)

diff --git a/v0/internal/util/yaml.go b/v0/internal/util/yaml.go
index e68538d..2e85803 100644
--- a/v0/internal/util/yaml.go
+++ b/v0/internal/util/yaml.go
@@ -26,7 +26,7 @@ func MapAppend(y *yaml.Node, k, v interface{}) error {
 	}
 
 	// A null without a text would be written as an empty string there.
-	if key.Kind == yaml.ScalarNode && key.ShortTag() == "!!null" && key.Value == "" {
+	if isEmptyNull(key) {
 		null := *key
 		null.Value = "null"
 		key = &null
@@ -43,7 +43,7 @@ func ToYamlNode(val interface{}) (*yaml.Node, error) {
 		if cur == nil {
 			return xyml.NewNullNode(), nil
 		}
-		return cur, nil
+		return spellNulls(cur, false), nil
 	case nil, xyml.Marshaler:
 		return xyml.ToYamlNode(val)
 	}
@@ -99,6 +99,46 @@ func ToYamlNode(val interface{}) (*yaml.Node, error) {
 	return xyml.ToYamlNode(val)
 }
 
+// spellNulls returns the given node with those nulls spelled out that have no
+// text and would be written as empty strings: the ones that are keys or stand in
+// a flow collection.
+//
+// Nodes are not changed, the ones that hold such a null are copied.
+func spellNulls(y *yaml.Node, flow bool) *yaml.Node {
+	flow = flow || y.Style&yaml.FlowStyle != 0
+	out := y
+
+	for i, cur := range y.Content {
+		if cur == nil {
+			continue
+		}
+
+		val := cur
+		if cur.Kind != yaml.ScalarNode {
+			val = spellNulls(cur, flow)
+		} else if isKey := y.Kind == yaml.MappingNode && i%2 == 0; (flow || isKey) && isEmptyNull(cur) {
+			null := *cur
+			null.Value = "null"
+			val = &null
+		}
+
+		if val != cur {
+			if out == y {
+				tmp := *y
+				tmp.Content = append([]*yaml.Node{}, y.Content...)
+				out = &tmp
+			}
+			out.Content[i] = val
+		}
+	}
+
+	return out
+}
+
+func isEmptyNull(y *yaml.Node) bool {
+	return y.Kind == yaml.ScalarNode && y.Value == "" && y.ShortTag() == "!!null"
+}
+
 func floatToYamlNode(val float64, bits int) *yaml.Node {
 	str := strconv.FormatFloat(val, 'g', -1, bits)
 
-- 
2.43.0


From 97368668c1bde53602936c7189644f5586ffb011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:10 +0000
Subject: [PATCH 41/44] fix: write texts that the YAML encoder spells wrongly
 in a style in which they survive

---
 v0/internal/raml/DataType.go |  3 +-
 v0/internal/util/yaml.go     | 70 +++++++++++++++++++++++++++---------
 2 files changed, 55 insertions(+), 18 deletions(-)

diff --git a/v0/internal/raml/DataType.go b/v0/internal/raml/DataType.go
index 42d561b..f0a3818 100644
--- a/v0/internal/raml/DataType.go
+++ b/v0/internal/raml/DataType.go
@@ -2,6 +2,7 @@ package raml
 
 import (
 	"errors"
+	"github.com/Foxcapades/lib-go-raml/v0/internal/util"
 	"github.com/Foxcapades/lib-go-raml/v0/internal/util/assign"
 	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml"
 	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml/rmeta"
@@ -75,7 +76,7 @@ func (d DataType) ToYAML() (*yaml.Node, error) {
 	} else if short {
 		schema, _ := out.Get(rmeta.KeyType)
 		logrus.Debug("Printing RAML type short form ", schema)
-		return xyml.ToYamlNode(schema)
+		return util.ToYamlNode(schema)
 	}
 	logrus.Debug("Printing RAML type long form")
 	return out.ToYAML()
diff --git a/v0/internal/util/yaml.go b/v0/internal/util/yaml.go
index 2e85803..865176b 100644
--- a/v0/internal/util/yaml.go
+++ b/v0/internal/util/yaml.go
@@ -43,7 +43,7 @@ func ToYamlNode(val interface{}) (*yaml.Node, error) {
 		if cur == nil {
 			return xyml.NewNullNode(), nil
 		}
-		return spellNulls(cur, false), nil
+		return spell(cur, false, false), nil
 	case nil, xyml.Marshaler:
 		return xyml.ToYamlNode(val)
 	}
@@ -52,7 +52,7 @@ func ToYamlNode(val interface{}) (*yaml.Node, error) {
 
 	switch ref.Kind() {
 	case reflect.String:
-		return xyml.NewStringNode(ref.String()), nil
+		return spell(xyml.NewStringNode(ref.String()), false, false), nil
 	case reflect.Bool:
 		return xyml.NewBoolNode(ref.Bool()), nil
 	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
@@ -99,12 +99,15 @@ func ToYamlNode(val interface{}) (*yaml.Node, error) {
 	return xyml.ToYamlNode(val)
 }
 
-// spellNulls returns the given node with those nulls spelled out that have no
-// text and would be written as empty strings: the ones that are keys or stand in
-// a flow collection.
+// spell returns the given node in a form that the YAML encoder writes correctly,
+// which it does not do with some scalars.
 //
-// Nodes are not changed, the ones that hold such a null are copied.
-func spellNulls(y *yaml.Node, flow bool) *yaml.Node {
+// Nodes are not changed, the ones that hold such a scalar are copied.
+func spell(y *yaml.Node, isKey, flow bool) *yaml.Node {
+	if y.Kind == yaml.ScalarNode {
+		return spellScalar(y, isKey || flow)
+	}
+
 	flow = flow || y.Style&yaml.FlowStyle != 0
 	out := y
 
@@ -113,16 +116,7 @@ func spellNulls(y *yaml.Node, flow bool) *yaml.Node {
 			continue
 		}
 
-		val := cur
-		if cur.Kind != yaml.ScalarNode {
-			val = spellNulls(cur, flow)
-		} else if isKey := y.Kind == yaml.MappingNode && i%2 == 0; (flow || isKey) && isEmptyNull(cur) {
-			null := *cur
-			null.Value = "null"
-			val = &null
-		}
-
-		if val != cur {
+		if val := spell(cur, y.Kind == yaml.MappingNode && i%2 == 0, flow); val != cur {
 			if out == y {
 				tmp := *y
 				tmp.Content = append([]*yaml.Node{}, y.Content...)
@@ -135,6 +129,48 @@ func spellNulls(y *yaml.Node, flow bool) *yaml.Node {
 	return out
 }
 
+func spellScalar(y *yaml.Node, simple bool) *yaml.Node {
+	const (
+		quoted = yaml.SingleQuotedStyle | yaml.DoubleQuotedStyle
+		block  = yaml.LiteralStyle | yaml.FoldedStyle
+	)
+
+	out := *y
+
+	switch {
+	case y.Style&quoted != 0:
+		return y
+	case simple && isEmptyNull(y):
+		// Would be written as an empty string.
+		out.Value = "null"
+	case y.Value == "<<" && y.Style&yaml.TaggedStyle == 0 && y.ShortTag() == "!!str":
+		// Would be written as a merge key.
+		out.Style |= yaml.DoubleQuotedStyle
+	case strings.HasPrefix(y.Value, "\t") && (y.Style&block != 0 || strings.Contains(y.Value, "\n")):
+		// Would be written as a block that starts with a tab, which is unreadable.
+		out.Style = y.Style&^block | yaml.DoubleQuotedStyle
+	case y.Style&yaml.FoldedStyle != 0 && !isFoldable(y.Value):
+		// Would be folded at the wrong places.
+		out.Style = y.Style&^yaml.FoldedStyle | yaml.LiteralStyle
+	default:
+		return y
+	}
+
+	return &out
+}
+
+// isFoldable returns whether the YAML encoder writes the given text correctly as
+// a folded block.
+func isFoldable(text string) bool {
+	for _, line := range strings.Split(text, "\n") {
+		if strings.HasPrefix(line, " ") || strings.HasPrefix(line, "\t") {
+			return false
+		}
+	}
+
+	return !strings.HasSuffix(text, "\n\n") && !strings.ContainsAny(text, "\u0085\u2028\u2029")
+}
+
 func isEmptyNull(y *yaml.Node) bool {
 	return y.Kind == yaml.ScalarNode && y.Value == "" && y.ShortTag() == "!!null"
 }
-- 
2.43.0


From c3f1dce702705bf102da94b42bc299ad39d10185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:11 +0000
Subject: [PATCH 42/44] fix: write the texts in all maps in a style in which
 they survive

---
 v0/pkg/raml/AnnotationMap.go          | 5 +++--
 v0/pkg/raml/ArrayExampleMap.go        | 5 +++--
 v0/pkg/raml/BoolExampleMap.go         | 5 +++--
 v0/pkg/raml/CustomExampleMap.go       | 5 +++--
 v0/pkg/raml/DataTypeMap.go            | 5 +++--
 v0/pkg/raml/DateOnlyExampleMap.go     | 5 +++--
 v0/pkg/raml/DatetimeExampleMap.go     | 5 +++--
 v0/pkg/raml/DatetimeOnlyExampleMap.go | 5 +++--
 v0/pkg/raml/FacetMap.go               | 5 +++--
 v0/pkg/raml/FileExampleMap.go         | 5 +++--
 v0/pkg/raml/IntegerExampleMap.go      | 5 +++--
 v0/pkg/raml/NumberExampleMap.go       | 5 +++--
 v0/pkg/raml/ObjectExampleMap.go       | 5 +++--
 v0/pkg/raml/PropertyMap.go            | 5 +++--
 v0/pkg/raml/StringExampleMap.go       | 5 +++--
 v0/pkg/raml/StringMap.go              | 5 +++--
 v0/pkg/raml/TimeOnlyExampleMap.go     | 5 +++--
 v0/pkg/raml/UnionExampleMap.go        | 5 +++--
 18 files changed, 54 insertions(+), 36 deletions(-)

diff --git a/v0/pkg/raml/AnnotationMap.go b/v0/pkg/raml/AnnotationMap.go
index b3b56f4..4af8af2 100644
--- a/v0/pkg/raml/AnnotationMap.go
+++ b/v0/pkg/raml/AnnotationMap.go
@@ -5,6 +5,7 @@ import (
 	"fmt"
 
 	"github.com/Foxcapades/gomp/v1/pkg/gomp"
+	"github.com/Foxcapades/lib-go-raml/v0/internal/util"
 	"github.com/Foxcapades/lib-go-yaml/v1/pkg/xyml"
 	"gopkg.in/yaml.v3"
 )
@@ -128,7 +129,7 @@ func (i implAnnotationMap) ToYAML() (*yaml.Node, error) {
 
 		for j := range i.ordered {
 			tmp := xyml.NewMapNode(1)
-			if e := xyml.MapAppend(tmp, i.ordered[j].Key, i.ordered[j].Val); e != nil {
+			if e := util.MapAppend(tmp, i.ordered[j].Key, i.ordered[j].Val); e != nil {
 				return nil, e
 			}
 			if err := xyml.SequenceAppend(out, tmp); err != nil {
@@ -142,7 +143,7 @@ func (i implAnnotationMap) ToYAML() (*yaml.Node, error) {
 	out := xyml.NewMapNode(i.Len())
 
 	for j := range i.ordered {
-		if e := xyml.MapAppend(out, i.ordered[j].Key, i.ordered[j].Val); e != nil {
+		if e := util.MapAppend(out, i.ordered[j].Key, i.ordered[j].Val); e != nil {
 			return nil, e
 		}
 	}
diff --git a/v0/pkg/raml/ArrayExampleMap.go b/v0/pkg/raml/ArrayExampleMap.go
index f1b1d2d..4aa2b07 100644
--- a/v0/pkg/raml/ArrayExampleMap.go
+++ b/v0/pkg/raml/ArrayExampleMap.go
@@ -5,6 +5,7 @@ import (
 	"fmt"
 
 	"github.com/Foxcapades/gomp/v1/pkg/gomp"
+	"github.com/Foxcapades/lib-go-raml/v0/internal/util"
 	"github.com/Foxcapades/lib-go-yaml/v1/pkg/xyml"
 	"gopkg.in/yaml.v3"
 )
@@ -128,7 +129,7 @@ func (i implArrayExampleMap) ToYAML() (*yaml.Node, error) {
 
 		for j := range i.ordered {
 			tmp := xyml.NewMapNode(1)
-			if e := xyml.MapAppend(tmp, i.ordered[j].Key, i.ordered[j].Val); e != nil {
+			if e := util.MapAppend(tmp, i.ordered[j].Key, i.ordered[j].Val); e != nil {
 				return nil, e
 			}
 			if err := xyml.SequenceAppend(out, tmp); err != nil {
@@ -142,7 +143,7 @@ func (i implArrayExampleMap) ToYAML() (*yaml.Node, error) {
 	out := xyml.NewMapNode(i.Len())
 
 	for j := range i.ordered {
-		if e := xyml.MapAppend(out, i.ordered[j].Key, i.ordered[j].Val); e != nil {
+		if e := util.MapAppend(out, i.ordered[j].Key, i.ordered[j].Val); e != nil {
 			return nil, e
 		}
 	}
diff --git a/v0/pkg/raml/BoolExampleMap.go b/v0/pkg/raml/BoolExampleMap.go
index c0785a0..c07ff9d 100644
--- a/v0/pkg/raml/BoolExampleMap.go
+++ b/v0/pkg/raml/BoolExampleMap.go
@@ -5,6 +5,7 @@ import (
 	"fmt"
 
 	"github.com/Foxcapades/gomp/v1/pkg/gomp"
+	"github.com/Foxcapades/lib-go-raml/v0/internal/util"
 	"github.com/Foxcapades/lib-go-yaml/v1/pkg/xyml"
 	"gopkg.in/yaml.v3"
 )
@@ -128,7 +129,7 @@ func (i implBoolExampleMap) ToYAML() (*yaml.Node, error) {
 
 		for j := range i.ordered {
 			tmp := xyml.NewMapNode(1)
-			if e := xyml.MapAppend(tmp, i.ordered[j].Key, i.ordered[j].Val); e != nil {
+			if e := util.MapAppend(tmp, i.ordered[j].Key, i.ordered[j].Val); e != nil {
 				return nil, e
 			}
 			if err := xyml.SequenceAppend(out, tmp); err != nil {
@@ -142,7 +143,7 @@ func (i implBoolExampleMap) ToYAML() (*yaml.Node, error) {
 	out := xyml.NewMapNode(i.Len())
 
 	for j := range i.ordered {
-		if e := xyml.MapAppend(out, i.ordered[j].Key, i.ordered[j].Val); e != nil {
+		if e := util.MapAppend(out, i.ordered[j].Key, i.ordered[j].Val); e != nil {
 			return nil, e
 		}
 	}
diff --git a/v0/pkg/raml/CustomExampleMap.go b/v0/pkg/raml/CustomExampleMap.go
index 14ea0a2..4298acd 100644
--- a/v0/pkg/raml/CustomExampleMap.go
+++ b/v0/pkg/raml/CustomExampleMap.go
@@ -5,6 +5,7 @@ import (
 	"fmt"
 
 	"github.com/Foxcapades/gomp/v1/pkg/gomp"
+	"github.com/Foxcapades/lib-go-raml/v0/internal/util"
 	"github.com/Foxcapades/lib-go-yaml/v1/pkg/xyml"
 	"gopkg.in/yaml.v3"
 )
@@ -128,7 +129,7 @@ func (i implCustomExampleMap) ToYAML() (*yaml.Node, error) {
 
 		for j := range i.ordered {
 			tmp := xyml.NewMapNode(1)
-			if e := xyml.MapAppend(tmp, i.ordered[j].Key, i.ordered[j].Val); e != nil {
+			if e := util.MapAppend(tmp, i.ordered[j].Key, i.ordered[j].Val); e != nil {
 				return nil, e
 			}
 			if err := xyml.SequenceAppend(out, tmp); err != nil {
@@ -142,7 +143,7 @@ func (i implCustomExampleMap) ToYAML() (*yaml.Node, error) {
 	out := xyml.NewMapNode(i.Len())
 
 	for j := range i.ordered {
-		if e := xyml.MapAppend(out, i.ordered[j].Key, i.ordered[j].Val); e != nil {
+		if e := util.MapAppend(out, i.ordered[j].Key, i.ordered[j].Val); e != nil {
 			return nil, e
 		}
 	}
diff --git a/v0/pkg/raml/DataTypeMap.go b/v0/pkg/raml/DataTypeMap.go
index a8117fd..8ba242d 100644
--- a/v0/pkg/raml/DataTypeMap.go
+++ b/v0/pkg/raml/DataTypeMap.go
@@ -5,6 +5,7 @@ import (
 	"fmt"
 
 	"github.com/Foxcapades/gomp/v1/pkg/gomp"
+	"github.com/Foxcapades/lib-go-raml/v0/internal/util"
 	"github.com/Foxcapades/lib-go-yaml/v1/pkg/xyml"
 	"gopkg.in/yaml.v3"
 )
@@ -128,7 +129,7 @@ func (i implDataTypeMap) ToYAML() (*yaml.Node, error) {
 
 		for j := range i.ordered {
 			tmp := xyml.NewMapNode(1)
-			if e := xyml.MapAppend(tmp, i.ordered[j].Key, i.ordered[j].Val); e != nil {
+			if e := util.MapAppend(tmp, i.ordered[j].Key, i.ordered[j].Val); e != nil {
 				return nil, e
 			}
 			if err := xyml.SequenceAppend(out, tmp); err != nil {
@@ -142,7 +143,7 @@ func (i implDataTypeMap) ToYAML() (*yaml.Node, error) {
 	out := xyml.NewMapNode(i.Len())
 
 	for j := range i.ordered {
-		if e := xyml.MapAppend(out, i.ordered[j].Key, i.ordered[j].Val); e != nil {
+		if e := util.MapAppend(out, i.ordered[j].Key, i.ordered[j].Val); e != nil {
 			return nil, e
 		}
 	}
diff --git a/v0/pkg/raml/DateOnlyExampleMap.go b/v0/pkg/raml/DateOnlyExampleMap.go
index 860cf02..4731cd9 100644
--- a/v0/pkg/raml/DateOnlyExampleMap.go
+++ b/v0/pkg/raml/DateOnlyExampleMap.go
@@ -5,6 +5,7 @@ import (
 	"fmt"
 
 	"github.com/Foxcapades/gomp/v1/pkg/gomp"
+	"github.com/Foxcapades/lib-go-raml/v0/internal/util"
 	"github.com/Foxcapades/lib-go-yaml/v1/pkg/xyml"
 	"gopkg.in/yaml.v3"
 )
@@ -128,7 +129,7 @@ func (i implDateOnlyExampleMap) ToYAML() (*yaml.Node, error) {
 
 		for j := range i.ordered {
 			tmp := xyml.NewMapNode(1)
-			if e := xyml.MapAppend(tmp, i.ordered[j].Key, i.ordered[j].Val); e != nil {
+			if e := util.MapAppend(tmp, i.ordered[j].Key, i.ordered[j].Val); e != nil {
 				return nil, e
 			}
 			if err := xyml.SequenceAppend(out, tmp); err != nil {
@@ -142,7 +143,7 @@ func (i implDateOnlyExampleMap) ToYAML() (*yaml.Node, error) {
 	out := xyml.NewMapNode(i.Len())
 
 	for j := range i.ordered {
-		if e := xyml.MapAppend(out, i.ordered[j].Key, i.ordered[j].Val); e != nil {
+		if e := util.MapAppend(out, i.ordered[j].Key, i.ordered[j].Val); e != nil {
 			return nil, e
 		}
 	}
diff --git a/v0/pkg/raml/DatetimeExampleMap.go b/v0/pkg/raml/DatetimeExampleMap.go
index 202135b..e8e21f1 100644
--- a/v0/pkg/raml/DatetimeExampleMap.go
+++ b/v0/pkg/raml/DatetimeExampleMap.go
@@ -5,6 +5,7 @@ import (
 	"fmt"
 
 	"github.com/Foxcapades/gomp/v1/pkg/gomp"
+	"github.com/Foxcapades/lib-go-raml/v0/internal/util"
 	"github.com/Foxcapades/lib-go-yaml/v1/pkg/xyml"
 	"gopkg.in/yaml.v3"
 )
@@ -128,7 +129,7 @@ func (i implDatetimeExampleMap) ToYAML() (*yaml.Node, error) {
 
 		for j := range i.ordered {
 			tmp := xyml.NewMapNode(1)
-			if e := xyml.MapAppend(tmp, i.ordered[j].Key, i.ordered[j].Val); e != nil {
+			if e := util.MapAppend(tmp, i.ordered[j].Key, i.ordered[j].Val); e != nil {
 				return nil, e
 			}
 			if err := xyml.SequenceAppend(out, tmp); err != nil {
@@ -142,7 +143,7 @@ func (i implDatetimeExampleMap) ToYAML() (*yaml.Node, error) {
 	out := xyml.NewMapNode(i.Len())
 
 	for j := range i.ordered {
-		if e := xyml.MapAppend(out, i.ordered[j].Key, i.ordered[j].Val); e != nil {
+		if e := util.MapAppend(out, i.ordered[j].Key, i.ordered[j].Val); e != nil {
 			return nil, e
 		}
 	}
diff --git a/v0/pkg/raml/DatetimeOnlyExampleMap.go b/v0/pkg/raml/DatetimeOnlyExampleMap.go
index 76a39dc..c065ba2 100644
--- a/v0/pkg/raml/DatetimeOnlyExampleMap.go
+++ b/v0/pkg/raml/DatetimeOnlyExampleMap.go
@@ -5,6 +5,7 @@ import (
 	"fmt"
 
 	"github.com/Foxcapades/gomp/v1/pkg/gomp"
+	"github.com/Foxcapades/lib-go-raml/v0/internal/util"
 	"github.com/Foxcapades/lib-go-yaml/v1/pkg/xyml"
 	"gopkg.in/yaml.v3"
 )
@@ -128,7 +129,7 @@ func (i implDatetimeOnlyExampleMap) ToYAML() (*yaml.Node, error) {
 
 		for j := range i.ordered {
 			tmp := xyml.NewMapNode(1)
-			if e := xyml.MapAppend(tmp, i.ordered[j].Key, i.ordered[j].Val); e != nil {
+			if e := util.MapAppend(tmp, i.ordered[j].Key, i.ordered[j].Val); e != nil {
 				return nil, e
 			}
 			if err := xyml.SequenceAppend(out, tmp); err != nil {
@@ -142,7 +143,7 @@ func (i implDatetimeOnlyExampleMap) ToYAML() (*yaml.Node, error) {
 	out := xyml.NewMapNode(i.Len())
 
 	for j := range i.ordered {
-		if e := xyml.MapAppend(out, i.ordered[j].Key, i.ordered[j].Val); e != nil {
+		if e := util.MapAppend(out, i.ordered[j].Key, i.ordered[j].Val); e != nil {
 			return nil, e
 		}
 	}
diff --git a/v0/pkg/raml/FacetMap.go b/v0/pkg/raml/FacetMap.go
index 2547d84..c3fa30b 100644
--- a/v0/pkg/raml/FacetMap.go
+++ b/v0/pkg/raml/FacetMap.go
@@ -5,6 +5,7 @@ import (
 	"fmt"
 
 	"github.com/Foxcapades/gomp/v1/pkg/gomp"
+	"github.com/Foxcapades/lib-go-raml/v0/internal/util"
 	"github.com/Foxcapades/lib-go-yaml/v1/pkg/xyml"
 	"gopkg.in/yaml.v3"
 )
@@ -128,7 +129,7 @@ func (i implFacetMap) ToYAML() (*yaml.Node, error) {
 
 		for j := range i.ordered {
 			tmp := xyml.NewMapNode(1)
-			if e := xyml.MapAppend(tmp, i.ordered[j].Key, i.ordered[j].Val); e != nil {
+			if e := util.MapAppend(tmp, i.ordered[j].Key, i.ordered[j].Val); e != nil {
 				return nil, e
 			}
 			if err := xyml.SequenceAppend(out, tmp); err != nil {
@@ -142,7 +143,7 @@ func (i implFacetMap) ToYAML() (*yaml.Node, error) {
 	out := xyml.NewMapNode(i.Len())
 
 	for j := range i.ordered {
-		if e := xyml.MapAppend(out, i.ordered[j].Key, i.ordered[j].Val); e != nil {
+		if e := util.MapAppend(out, i.ordered[j].Key, i.ordered[j].Val); e != nil {
 			return nil, e
 		}
 	}
diff --git a/v0/pkg/raml/FileExampleMap.go b/v0/pkg/raml/FileExampleMap.go
index ad621fb..393fe72 100644
--- a/v0/pkg/raml/FileExampleMap.go
+++ b/v0/pkg/raml/FileExampleMap.go
@@ -5,6 +5,7 @@ import (
 	"fmt"
 
 	"github.com/Foxcapades/gomp/v1/pkg/gomp"
+	"github.com/Foxcapades/lib-go-raml/v0/internal/util"
 	"github.com/Foxcapades/lib-go-yaml/v1/pkg/xyml"
 	"gopkg.in/yaml.v3"
 )
@@ -128,7 +129,7 @@ func (i implFileExampleMap) ToYAML() (*yaml.Node, error) {
 
 		for j := range i.ordered {
 			tmp := xyml.NewMapNode(1)
-			if e := xyml.MapAppend(tmp, i.ordered[j].Key, i.ordered[j].Val); e != nil {
+			if e := util.MapAppend(tmp, i.ordered[j].Key, i.ordered[j].Val); e != nil {
 				return nil, e
 			}
 			if err := xyml.SequenceAppend(out, tmp); err != nil {
@@ -142,7 +143,7 @@ func (i implFileExampleMap) ToYAML() (*yaml.Node, error) {
 	out := xyml.NewMapNode(i.Len())
 
 	for j := range i.ordered {
-		if e := xyml.MapAppend(out, i.ordered[j].Key, i.ordered[j].Val); e != nil {
+		if e := util.MapAppend(out, i.ordered[j].Key, i.ordered[j].Val); e != nil {
 			return nil, e
 		}
 	}
diff --git a/v0/pkg/raml/IntegerExampleMap.go b/v0/pkg/raml/IntegerExampleMap.go
index 9a34848..c5d4d82 100644
--- a/v0/pkg/raml/IntegerExampleMap.go
+++ b/v0/pkg/raml/IntegerExampleMap.go
@@ -5,6 +5,7 @@ import (
 	"fmt"
 
 	"github.com/Foxcapades/gomp/v1/pkg/gomp"
+	"github.com/Foxcapades/lib-go-raml/v0/internal/util"
 	"github.com/Foxcapades/lib-go-yaml/v1/pkg/xyml"
 	"gopkg.in/yaml.v3"
 )
@@ -128,7 +129,7 @@ func (i implIntegerExampleMap) ToYAML() (*yaml.Node, error) {
 
 		for j := range i.ordered {
 			tmp := xyml.NewMapNode(1)
-			if e := xyml.MapAppend(tmp, i.ordered[j].Key, i.ordered[j].Val); e != nil {
+			if e := util.MapAppend(tmp, i.ordered[j].Key, i.ordered[j].Val); e != nil {
 				return nil, e
 			}
 			if err := xyml.SequenceAppend(out, tmp); err != nil {
@@ -142,7 +143,7 @@ func (i implIntegerExampleMap) ToYAML() (*yaml.Node, error) {
 	out := xyml.NewMapNode(i.Len())
 
 	for j := range i.ordered {
-		if e := xyml.MapAppend(out, i.ordered[j].Key, i.ordered[j].Val); e != nil {
+		if e := util.MapAppend(out, i.ordered[j].Key, i.ordered[j].Val); e != nil {
 			return nil, e
 		}
 	}
diff --git a/v0/pkg/raml/NumberExampleMap.go b/v0/pkg/raml/NumberExampleMap.go
index e36980a..675c6b9 100644
--- a/v0/pkg/raml/NumberExampleMap.go
+++ b/v0/pkg/raml/NumberExampleMap.go
@@ -5,6 +5,7 @@ import (
 	"fmt"
 
 	"github.com/Foxcapades/gomp/v1/pkg/gomp"
+	"github.com/Foxcapades/lib-go-raml/v0/internal/util"
 	"github.com/Foxcapades/lib-go-yaml/v1/pkg/xyml"
 	"gopkg.in/yaml.v3"
 )
@@ -128,7 +129,7 @@ func (i implNumberExampleMap) ToYAML() (*yaml.Node, error) {
 
 		for j := range i.ordered {
 			tmp := xyml.NewMapNode(1)
-			if e := xyml.MapAppend(tmp, i.ordered[j].Key, i.ordered[j].Val); e != nil {
+			if e := util.MapAppend(tmp, i.ordered[j].Key, i.ordered[j].Val); e != nil {
 				return nil, e
 			}
 			if err := xyml.SequenceAppend(out, tmp); err != nil {
@@ -142,7 +143,7 @@ func (i implNumberExampleMap) ToYAML() (*yaml.Node, error) {
 	out := xyml.NewMapNode(i.Len())
 
 	for j := range i.ordered {
-		if e := xyml.MapAppend(out, i.ordered[j].Key, i.ordered[j].Val); e != nil {
+		if e := util.MapAppend(out, i.ordered[j].Key, i.ordered[j].Val); e != nil {
 			return nil, e
 		}
 	}
diff --git a/v0/pkg/raml/ObjectExampleMap.go b/v0/pkg/raml/ObjectExampleMap.go
index a88a001..96d4ea7 100644
--- a/v0/pkg/raml/ObjectExampleMap.go
+++ b/v0/pkg/raml/ObjectExampleMap.go
@@ -5,6 +5,7 @@ import (
 	"fmt"
 
 	"github.com/Foxcapades/gomp/v1/pkg/gomp"
+	"github.com/Foxcapades/lib-go-raml/v0/internal/util"
 	"github.com/Foxcapades/lib-go-yaml/v1/pkg/xyml"
 	"gopkg.in/yaml.v3"
 )
@@ -128,7 +129,7 @@ func (i implObjectExampleMap) ToYAML() (*yaml.Node, error) {
 
 		for j := range i.ordered {
 			tmp := xyml.NewMapNode(1)
-			if e := xyml.MapAppend(tmp, i.ordered[j].Key, i.ordered[j].Val); e != nil {
+			if e := util.MapAppend(tmp, i.ordered[j].Key, i.ordered[j].Val); e != nil {
 				return nil, e
 			}
 			if err := xyml.SequenceAppend(out, tmp); err != nil {
@@ -142,7 +143,7 @@ func (i implObjectExampleMap) ToYAML() (*yaml.Node, error) {
 	out := xyml.NewMapNode(i.Len())
 
 	for j := range i.ordered {
-		if e := xyml.MapAppend(out, i.ordered[j].Key, i.ordered[j].Val); e != nil {
+		if e := util.MapAppend(out, i.ordered[j].Key, i.ordered[j].Val); e != nil {
 			return nil, e
 		}
 	}
diff --git a/v0/pkg/raml/PropertyMap.go b/v0/pkg/raml/PropertyMap.go
index 1bdfa99..3a4e0c3 100644
--- a/v0/pkg/raml/PropertyMap.go
+++ b/v0/pkg/raml/PropertyMap.go
@@ -5,6 +5,7 @@ import (
 	"fmt"
 
 	"github.com/Foxcapades/gomp/v1/pkg/gomp"
+	"github.com/Foxcapades/lib-go-raml/v0/internal/util"
 	"github.com/Foxcapades/lib-go-yaml/v1/pkg/xyml"
 	"gopkg.in/yaml.v3"
 )
@@ -128,7 +129,7 @@ func (i implPropertyMap) ToYAML() (*yaml.Node, error) {
 
 		for j := range i.ordered {
 			tmp := xyml.NewMapNode(1)
-			if e := xyml.MapAppend(tmp, i.ordered[j].Key, i.ordered[j].Val); e != nil {
+			if e := util.MapAppend(tmp, i.ordered[j].Key, i.ordered[j].Val); e != nil {
 				return nil, e
 			}
 			if err := xyml.SequenceAppend(out, tmp); err != nil {
@@ -142,7 +143,7 @@ func (i implPropertyMap) ToYAML() (*yaml.Node, error) {
 	out := xyml.NewMapNode(i.Len())
 
 	for j := range i.ordered {
-		if e := xyml.MapAppend(out, i.ordered[j].Key, i.ordered[j].Val); e != nil {
+		if e := util.MapAppend(out, i.ordered[j].Key, i.ordered[j].Val); e != nil {
 			return nil, e
 		}
 	}
diff --git a/v0/pkg/raml/StringExampleMap.go b/v0/pkg/raml/StringExampleMap.go
index 712f67d..9672df4 100644
--- a/v0/pkg/raml/StringExampleMap.go
+++ b/v0/pkg/raml/StringExampleMap.go
@@ -5,6 +5,7 @@ import (
 	"fmt"
 
 	"github.com/Foxcapades/gomp/v1/pkg/gomp"
+	"github.com/Foxcapades/lib-go-raml/v0/internal/util"
 	"github.com/Foxcapades/lib-go-yaml/v1/pkg/xyml"
 	"gopkg.in/yaml.v3"
 )
@@ -128,7 +129,7 @@ func (i implStringExampleMap) ToYAML() (*yaml.Node, error) {
 
 		for j := range i.ordered {
 			tmp := xyml.NewMapNode(1)
-			if e := xyml.MapAppend(tmp, i.ordered[j].Key, i.ordered[j].Val); e != nil {
+			if e := util.MapAppend(tmp, i.ordered[j].Key, i.ordered[j].Val); e != nil {
 				return nil, e
 			}
 			if err := xyml.SequenceAppend(out, tmp); err != nil {
@@ -142,7 +143,7 @@ func (i implStringExampleMap) ToYAML() (*yaml.Node, error) {
 	out := xyml.NewMapNode(i.Len())
 
 	for j := range i.ordered {
-		if e := xyml.MapAppend(out, i.ordered[j].Key, i.ordered[j].Val); e != nil {
+		if e := util.MapAppend(out, i.ordered[j].Key, i.ordered[j].Val); e != nil {
 			return nil, e
 		}
 	}
diff --git a/v0/pkg/raml/StringMap.go b/v0/pkg/raml/StringMap.go
index d6b7024..5568b15 100644
--- a/v0/pkg/raml/StringMap.go
+++ b/v0/pkg/raml/StringMap.go
@@ -6,6 +6,7 @@ import (
 
 	"github.com/Foxcapades/gomp/v1/pkg/gomp"
 	"github.com/Foxcapades/goop/v1/pkg/option"
+	"github.com/Foxcapades/lib-go-raml/v0/internal/util"
 	"github.com/Foxcapades/lib-go-yaml/v1/pkg/xyml"
 	"gopkg.in/yaml.v3"
 )
@@ -134,7 +135,7 @@ func (i implStringMap) ToYAML() (*yaml.Node, error) {
 
 		for j := range i.ordered {
 			tmp := xyml.NewMapNode(1)
-			if e := xyml.MapAppend(tmp, i.ordered[j].Key, i.ordered[j].Val); e != nil {
+			if e := util.MapAppend(tmp, i.ordered[j].Key, i.ordered[j].Val); e != nil {
 				return nil, e
 			}
 			if err := xyml.SequenceAppend(out, tmp); err != nil {
@@ -148,7 +149,7 @@ func (i implStringMap) ToYAML() (*yaml.Node, error) {
 	out := xyml.NewMapNode(i.Len())
 
 	for j := range i.ordered {
-		if e := xyml.MapAppend(out, i.ordered[j].Key, i.ordered[j].Val); e != nil {
+		if e := util.MapAppend(out, i.ordered[j].Key, i.ordered[j].Val); e != nil {
 			return nil, e
 		}
 	}
diff --git a/v0/pkg/raml/TimeOnlyExampleMap.go b/v0/pkg/raml/TimeOnlyExampleMap.go
index cb942b2..860b5b8 100644
--- a/v0/pkg/raml/TimeOnlyExampleMap.go
+++ b/v0/pkg/raml/TimeOnlyExampleMap.go
@@ -5,6 +5,7 @@ import (
 	"fmt"
 
 	"github.com/Foxcapades/gomp/v1/pkg/gomp"
+	"github.com/Foxcapades/lib-go-raml/v0/internal/util"
 	"github.com/Foxcapades/lib-go-yaml/v1/pkg/xyml"
 	"gopkg.in/yaml.v3"
 )
@@ -128,7 +129,7 @@ func (i implTimeOnlyExampleMap) ToYAML() (*yaml.Node, error) {
 
 		for j := range i.ordered {
 			tmp := xyml.NewMapNode(1)
-			if e := xyml.MapAppend(tmp, i.ordered[j].Key, i.ordered[j].Val); e != nil {
+			if e := util.MapAppend(tmp, i.ordered[j].Key, i.ordered[j].Val); e != nil {
 				return nil, e
 			}
 			if err := xyml.SequenceAppend(out, tmp); err != nil {
@@ -142,7 +143,7 @@ func (i implTimeOnlyExampleMap) ToYAML() (*yaml.Node, error) {
 	out := xyml.NewMapNode(i.Len())
 
 	for j := range i.ordered {
-		if e := xyml.MapAppend(out, i.ordered[j].Key, i.ordered[j].Val); e != nil {
+		if e := util.MapAppend(out, i.ordered[j].Key, i.ordered[j].Val); e != nil {
 			return nil, e
 		}
 	}
diff --git a/v0/pkg/raml/UnionExampleMap.go b/v0/pkg/raml/UnionExampleMap.go
index b9b5e38..de0aa2e 100644
--- a/v0/pkg/raml/UnionExampleMap.go
+++ b/v0/pkg/raml/UnionExampleMap.go
@@ -5,6 +5,7 @@ import (
 	"fmt"
 
 	"github.com/Foxcapades/gomp/v1/pkg/gomp"
+	"github.com/Foxcapades/lib-go-raml/v0/internal/util"
 	"github.com/Foxcapades/lib-go-yaml/v1/pkg/xyml"
 	"gopkg.in/yaml.v3"
 )
@@ -128,7 +129,7 @@ func (i implUnionExampleMap) ToYAML() (*yaml.Node, error) {
 
 		for j := range i.ordered {
 			tmp := xyml.NewMapNode(1)
-			if e := xyml.MapAppend(tmp, i.ordered[j].Key, i.ordered[j].Val); e != nil {
+			if e := util.MapAppend(tmp, i.ordered[j].Key, i.ordered[j].Val); e != nil {
 				return nil, e
 			}
 			if err := xyml.SequenceAppend(out, tmp); err != nil {
@@ -142,7 +143,7 @@ func (i implUnionExampleMap) ToYAML() (*yaml.Node, error) {
 	out := xyml.NewMapNode(i.Len())
 
 	for j := range i.ordered {
-		if e := xyml.MapAppend(out, i.ordered[j].Key, i.ordered[j].Val); e != nil {
+		if e := util.MapAppend(out, i.ordered[j].Key, i.ordered[j].Val); e != nil {
 			return nil, e
 		}
 	}
-- 
2.43.0


From 7d06e42a27159cd1078d1bb72a0fd6d827ff1ee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:07 +0000
Subject: [PATCH 43/44] fix: write texts that start with a blank in a style
 that survives any indentation

---
 v0/internal/util/yaml.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/v0/internal/util/yaml.go b/v0/internal/util/yaml.go
index 865176b..6f3c477 100644
--- a/v0/internal/util/yaml.go
+++ b/v0/internal/util/yaml.go
@@ -146,8 +146,9 @@ func spellScalar(y *yaml.Node, simple bool) *yaml.Node {
 	case y.Value == "<<" && y.Style&yaml.TaggedStyle == 0 && y.ShortTag() == "!!str":
 		// Would be written as a merge key.
 		out.Style |= yaml.DoubleQuotedStyle
-	case strings.HasPrefix(y.Value, "\t") && (y.Style&block != 0 || strings.Contains(y.Value, "\n")):
-		// Would be written as a block that starts with a tab, which is unreadable.
+	case startsBlank(y.Value) && (y.Style&block != 0 || strings.Contains(y.Value, "\n")):
+		// Would be written as a block with an indentation indicator, which is wrong
+		// after a tab, and in lists if the indentation is not two.
 		out.Style = y.Style&^block | yaml.DoubleQuotedStyle
 	case y.Style&yaml.FoldedStyle != 0 && !isFoldable(y.Value):
 		// Would be folded at the wrong places.
@@ -159,6 +160,11 @@ func spellScalar(y *yaml.Node, simple bool) *yaml.Node {
 	return &out
 }
 
+// startsBlank returns whether the given text starts with a blank or a line break.
+func startsBlank(text string) bool {
+	return strings.IndexAny(text, " \t\r\n\u0085\u2028\u2029") == 0
+}
+
 // isFoldable returns whether the YAML encoder writes the given text correctly as
 // a folded block.
 func isFoldable(text string) bool {
-- 
2.43.0


From 2d634b28f8a12e5379e99666fa73f54768f423fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:31 +0000
Subject: [PATCH 44/44] fix: keep unquoted times in flow style from becoming
 strings

---
 v0/internal/util/yaml.go | 26 +++++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/v0/internal/util/yaml.go b/v0/internal/util/yaml.go
index 6f3c477..d57f590 100644
--- a/v0/internal/util/yaml.go
+++ b/v0/internal/util/yaml.go
@@ -108,9 +108,19 @@ func spell(y *yaml.Node, isKey, flow bool) *yaml.Node {
 		return spellScalar(y, isKey || flow)
 	}
 
-	flow = flow || y.Style&yaml.FlowStyle != 0
 	out := y
 
+	if y.Style&yaml.FlowStyle != 0 {
+		if holdsTime(y) {
+			tmp := *y
+			tmp.Style &^= yaml.FlowStyle
+			tmp.Content = append([]*yaml.Node{}, y.Content...)
+			out = &tmp
+		} else {
+			flow = true
+		}
+	}
+
 	for i, cur := range y.Content {
 		if cur == nil {
 			continue
@@ -129,6 +139,20 @@ func spell(y *yaml.Node, isKey, flow bool) *yaml.Node {
 	return out
 }
 
+// holdsTime returns whether the given node holds a timestamp that would be
+// written as a string, in quotes, in flow style.
+func holdsTime(y *yaml.Node) bool {
+	const explicit = yaml.SingleQuotedStyle | yaml.DoubleQuotedStyle | yaml.TaggedStyle
+
+	for _, cur := range y.Content {
+		if cur != nil && holdsTime(cur) {
+			return true
+		}
+	}
+
+	return y.Kind == yaml.ScalarNode && y.Style&explicit == 0 && strings.Contains(y.Value, ":") && y.ShortTag() == "!!timestamp"
+}
+
 func spellScalar(y *yaml.Node, simple bool) *yaml.Node {
 	const (
 		quoted = yaml.SingleQuotedStyle | yaml.DoubleQuotedStyle
-- 
2.43.0

