From af04f62de9a90ac9a68581e5fcca10bdb1d1da96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:23 +0000
Subject: [PATCH 01/26] fix: Event.Delete of a nested key removed the whole
 top-level field

---
 pkg/event/event.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pkg/event/event.go b/pkg/event/event.go
index ffebbee..444b6f0 100644
--- a/pkg/event/event.go
+++ b/pkg/event/event.go
@@ -131,7 +131,11 @@ func (e *Event) delete(path []string) (deleted *Value) {
 
 	v := e.get(path)
 	if v != nil {
-		delete(e.fields, path[0])
+		m := e.fields
+		for _, key := range path[:len(path)-1] {
+			m = m[key].Object
+		}
+		delete(m, path[len(path)-1])
 	}
 
 	return v
-- 
2.43.0


From 5dccea92e8e06558a481d86a9797869db3085d69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:23 +0000
Subject: [PATCH 02/26] fix: Event.Get and Put panicked on a path through a nil
 entry

---
 pkg/event/event.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/event/event.go b/pkg/event/event.go
index 444b6f0..1824c59 100644
--- a/pkg/event/event.go
+++ b/pkg/event/event.go
@@ -77,7 +77,7 @@ func (e *Event) put(path []string, val *Value, overwrite bool) (old *Value, err
 	m := e.fields
 	for _, key := range path[:len(path)-1] {
 		inner, found := m[key]
-		if found {
+		if found && inner != nil {
 			if inner.Type != ObjectType {
 				return nil, fmt.Errorf("event put failed for path <%s>: %w", pathString(path), ErrTargetKeyNotObject)
 			}
@@ -110,7 +110,7 @@ func (e *Event) get(path []string) *Value {
 	m := e.fields
 	for _, key := range path[:len(path)-1] {
 		inner, found := m[key]
-		if !found || len(inner.Object) == 0 {
+		if !found || inner == nil || len(inner.Object) == 0 {
 			return nil
 		}
 		m = inner.Object
-- 
2.43.0


From 072b73e772f2bd9058655637f543f8e69c8ad04f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:23 +0000
Subject: [PATCH 03/26] fix: Event.Put panicked on a path through an object
 with a nil map

---
 pkg/event/event.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pkg/event/event.go b/pkg/event/event.go
index 1824c59..849606a 100644
--- a/pkg/event/event.go
+++ b/pkg/event/event.go
@@ -81,8 +81,10 @@ func (e *Event) put(path []string, val *Value, overwrite bool) (old *Value, err
 			if inner.Type != ObjectType {
 				return nil, fmt.Errorf("event put failed for path <%s>: %w", pathString(path), ErrTargetKeyNotObject)
 			}
-			m = inner.Object
-			continue
+			if inner.Object != nil {
+				m = inner.Object
+				continue
+			}
 		}
 		newObj := Object(map[string]*Value{})
 		m[key] = newObj
-- 
2.43.0


From 9480421a5be666c76a7430e76035bbec1fc24775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:23 +0000
Subject: [PATCH 04/26] fix: JSON null fields decoded to nil entries that could
 not be read or deleted

---
 pkg/event/event.go |  1 +
 pkg/event/value.go | 16 ++++++++++++++++
 2 files changed, 17 insertions(+)

diff --git a/pkg/event/event.go b/pkg/event/event.go
index 849606a..851fe16 100644
--- a/pkg/event/event.go
+++ b/pkg/event/event.go
@@ -152,6 +152,7 @@ func (e *Event) UnmarshalJSON(data []byte) error {
 	if err := json.Unmarshal(data, &fields); err != nil {
 		return err
 	}
+	replaceNilFields(fields)
 	e.fields = fields
 	return nil
 }
diff --git a/pkg/event/value.go b/pkg/event/value.go
index fd695a8..8cd48c2 100644
--- a/pkg/event/value.go
+++ b/pkg/event/value.go
@@ -121,11 +121,17 @@ func (v *Value) UnmarshalJSON(data []byte) error {
 		if err = json.Unmarshal(data, &v.Array); err != nil {
 			return err
 		}
+		for i, x := range v.Array {
+			if x == nil {
+				v.Array[i] = NullValue
+			}
+		}
 		v.Type = ArrayType
 	case json.Delim('{'):
 		if err = json.Unmarshal(data, &v.Object); err != nil {
 			return err
 		}
+		replaceNilFields(v.Object)
 		v.Type = ObjectType
 	default:
 		var value interface{}
@@ -156,6 +162,16 @@ func (v *Value) UnmarshalJSON(data []byte) error {
 	return nil
 }
 
+// replaceNilFields replaces nil entries by NullValue. encoding/json stores a
+// nil *Value for a JSON null without calling UnmarshalJSON.
+func replaceNilFields(fields map[string]*Value) {
+	for k, v := range fields {
+		if v == nil {
+			fields[k] = NullValue
+		}
+	}
+}
+
 func Bool(v bool) *Value {
 	return &Value{Type: BoolType, Bool: v}
 }
-- 
2.43.0


From b4b32edd01311bc68bc30db3c855f5f08509582b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:23 +0000
Subject: [PATCH 05/26] fix: dropping an event had no effect

---
 pkg/pipeline/event.go     | 2 +-
 pkg/pipeline/processor.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/pipeline/event.go b/pkg/pipeline/event.go
index 0a7c740..09aadba 100644
--- a/pkg/pipeline/event.go
+++ b/pkg/pipeline/event.go
@@ -52,6 +52,6 @@ func (e *pipelineEvent) Cancel() {
 	e.cancelled = true
 }
 
-func (e pipelineEvent) Drop() {
+func (e *pipelineEvent) Drop() {
 	e.dropped = true
 }
diff --git a/pkg/pipeline/processor.go b/pkg/pipeline/processor.go
index 31c601f..7c45c99 100644
--- a/pkg/pipeline/processor.go
+++ b/pkg/pipeline/processor.go
@@ -49,7 +49,7 @@ func (p *pipelineProcessor) Process(event *pipelineEvent) error {
 	// TODO: Check Condition before executing.
 	p.metricEventsInTotal.Inc()
 
-	if err := p.proc.Process(event); err != nil {
+	if err := p.proc.Process(event); err != nil || event.dropped {
 		if event.dropped {
 			p.metricDiscardedEventsTotal.Inc()
 			return nil
-- 
2.43.0


From 94fe78debaa2f85a420edac67c2361dbebfb8cc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:23 +0000
Subject: [PATCH 06/26] fix: processors kept running after an event was
 cancelled or dropped

---
 pkg/pipeline/event.go     | 5 +++++
 pkg/pipeline/pipeline.go  | 6 ++++++
 pkg/pipeline/processor.go | 3 +++
 3 files changed, 14 insertions(+)

diff --git a/pkg/pipeline/event.go b/pkg/pipeline/event.go
index 09aadba..fd63780 100644
--- a/pkg/pipeline/event.go
+++ b/pkg/pipeline/event.go
@@ -52,6 +52,11 @@ func (e *pipelineEvent) Cancel() {
 	e.cancelled = true
 }
 
+// stopped returns true if no further processor may handle the event.
+func (e *pipelineEvent) stopped() bool {
+	return e.cancelled || e.dropped
+}
+
 func (e *pipelineEvent) Drop() {
 	e.dropped = true
 }
diff --git a/pkg/pipeline/pipeline.go b/pkg/pipeline/pipeline.go
index 32b138a..8c3707c 100644
--- a/pkg/pipeline/pipeline.go
+++ b/pkg/pipeline/pipeline.go
@@ -81,6 +81,9 @@ func (pipe *Pipeline) Process(evt *event.Event) (*event.Event, error) {
 func (pipe *Pipeline) process(evt *pipelineEvent) error {
 	var err error
 	for _, proc := range pipe.processors {
+		if evt.stopped() {
+			break
+		}
 		if err = proc.Process(evt); err != nil {
 			// Go to global on_failure handler.
 			break
@@ -89,6 +92,9 @@ func (pipe *Pipeline) process(evt *pipelineEvent) error {
 
 	if err != nil && len(pipe.onFailure) > 0 {
 		for _, proc := range pipe.onFailure {
+			if evt.stopped() {
+				break
+			}
 			if err = proc.Process(evt); err != nil {
 				// Failure in global on_failure.
 				return err
diff --git a/pkg/pipeline/processor.go b/pkg/pipeline/processor.go
index 7c45c99..2396f43 100644
--- a/pkg/pipeline/processor.go
+++ b/pkg/pipeline/processor.go
@@ -64,6 +64,9 @@ func (p *pipelineProcessor) Process(event *pipelineEvent) error {
 		// On Failure
 		if len(p.OnFailure) > 0 {
 			for _, proc := range p.OnFailure {
+				if event.stopped() {
+					break
+				}
 				if err = proc.Process(event); err != nil {
 					break
 				}
-- 
2.43.0


From 69f8e7a21e2014a28ff871b04acfa276186782df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:23 +0000
Subject: [PATCH 07/26] fix: failures recovered by on_failure were counted as
 errors

---
 pkg/pipeline/processor.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/pkg/pipeline/processor.go b/pkg/pipeline/processor.go
index 2396f43..81afd23 100644
--- a/pkg/pipeline/processor.go
+++ b/pkg/pipeline/processor.go
@@ -71,6 +71,17 @@ func (p *pipelineProcessor) Process(event *pipelineEvent) error {
 					break
 				}
 			}
+
+			if event.dropped {
+				p.metricDiscardedEventsTotal.Inc()
+				return nil
+			}
+
+			// Recovered
+			if err == nil {
+				p.metricEventsOutTotal.Inc()
+				return nil
+			}
 		}
 
 		// Ignore Failure
-- 
2.43.0


From c81f8314686a709ea2fad2a59ed2527831eeabd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:23 +0000
Subject: [PATCH 08/26] fix: Pipeline.Metrics omitted the pipeline's on_failure
 processors

---
 pkg/pipeline/pipeline.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/pipeline/pipeline.go b/pkg/pipeline/pipeline.go
index 8c3707c..75d551f 100644
--- a/pkg/pipeline/pipeline.go
+++ b/pkg/pipeline/pipeline.go
@@ -130,6 +130,9 @@ func (pipe *Pipeline) visitProcessors(visit func(processor *pipelineProcessor))
 	for _, proc := range pipe.processors {
 		visitProcessor(visit, proc)
 	}
+	for _, proc := range pipe.onFailure {
+		visitProcessor(visit, proc)
+	}
 }
 
 func visitProcessor(visit func(processor *pipelineProcessor), proc *pipelineProcessor) {
-- 
2.43.0


From 4fb213aa4dab5d460539cbe79eaf0c7cd7b22263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:23 +0000
Subject: [PATCH 09/26] fix: pipeline.New panicked on an empty pipeline
 definition

---
 pkg/pipeline/pipeline.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/pipeline/pipeline.go b/pkg/pipeline/pipeline.go
index 75d551f..41b816a 100644
--- a/pkg/pipeline/pipeline.go
+++ b/pkg/pipeline/pipeline.go
@@ -32,7 +32,7 @@ type Pipeline struct {
 }
 
 func New(config *Config) (*Pipeline, error) {
-	if config.ID == "" {
+	if config == nil || config.ID == "" {
 		return nil, errors.New("pipeline must have a non-empty id")
 	}
 
-- 
2.43.0


From a5cc849586344008555dcf1efdb1fc91ee45afcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:31 +0000
Subject: [PATCH 10/26] fix: set shared its configured value with every event

---
 pkg/event/value.go           | 22 ++++++++++++++++++++++
 pkg/processor/set/process.go |  4 +++-
 2 files changed, 25 insertions(+), 1 deletion(-)

diff --git a/pkg/event/value.go b/pkg/event/value.go
index 8cd48c2..7eabd39 100644
--- a/pkg/event/value.go
+++ b/pkg/event/value.go
@@ -172,6 +172,28 @@ func replaceNilFields(fields map[string]*Value) {
 	}
 }
 
+// Clone returns a deep copy of the value.
+func (v *Value) Clone() *Value {
+	if v == nil {
+		return nil
+	}
+
+	c := *v
+	if v.Array != nil {
+		c.Array = make([]*Value, 0, len(v.Array))
+		for _, x := range v.Array {
+			c.Array = append(c.Array, x.Clone())
+		}
+	}
+	if v.Object != nil {
+		c.Object = make(map[string]*Value, len(v.Object))
+		for k, x := range v.Object {
+			c.Object[k] = x.Clone()
+		}
+	}
+	return &c
+}
+
 func Bool(v bool) *Value {
 	return &Value{Type: BoolType, Bool: v}
 }
diff --git a/pkg/processor/set/process.go b/pkg/processor/set/process.go
index 8275dc9..9288c25 100644
--- a/pkg/processor/set/process.go
+++ b/pkg/processor/set/process.go
@@ -33,6 +33,8 @@ func (p *Set) Process(evt processor.Event) error {
 		}
 	}
 
-	_, err := evt.Put(p.config.TargetField, v)
+	// The event must not share mutable values with the configuration or with
+	// the field that was copied.
+	_, err := evt.Put(p.config.TargetField, v.Clone())
 	return err
 }
-- 
2.43.0


From b5cc9afe7b50ffbae979cfcdbf549d27778e48ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:31 +0000
Subject: [PATCH 11/26] fix: ignore_missing did not apply to null fields

---
 pkg/processor/lowercase/process.go | 2 +-
 pkg/processor/set/process.go       | 2 +-
 pkg/processor/uppercase/process.go | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/pkg/processor/lowercase/process.go b/pkg/processor/lowercase/process.go
index 2281c89..96bd8ee 100644
--- a/pkg/processor/lowercase/process.go
+++ b/pkg/processor/lowercase/process.go
@@ -27,7 +27,7 @@ import (
 
 func (p *Lowercase) Process(evt processor.Event) error {
 	v := evt.Get(p.config.Field)
-	if v == nil {
+	if v == nil || v.Type == event.NullType {
 		return processor.ErrorKeyMissing{Key: p.config.Field}
 	}
 
diff --git a/pkg/processor/set/process.go b/pkg/processor/set/process.go
index 9288c25..79e177d 100644
--- a/pkg/processor/set/process.go
+++ b/pkg/processor/set/process.go
@@ -28,7 +28,7 @@ func (p *Set) Process(evt processor.Event) error {
 		v = (*event.Value)(&p.config.Value)
 	} else if p.config.CopyFrom != "" {
 		v = evt.Get(p.config.CopyFrom)
-		if v == nil {
+		if v == nil || (v.Type == event.NullType && p.config.IgnoreMissing) {
 			return processor.ErrorKeyMissing{Key: p.config.CopyFrom}
 		}
 	}
diff --git a/pkg/processor/uppercase/process.go b/pkg/processor/uppercase/process.go
index 49e87f4..948a70c 100644
--- a/pkg/processor/uppercase/process.go
+++ b/pkg/processor/uppercase/process.go
@@ -27,7 +27,7 @@ import (
 
 func (p *Uppercase) Process(evt processor.Event) error {
 	v := evt.Get(p.config.Field)
-	if v == nil {
+	if v == nil || v.Type == event.NullType {
 		return processor.ErrorKeyMissing{Key: p.config.Field}
 	}
 
-- 
2.43.0


From d7af3a86ddb63f7aa814811c27a902f30f2539e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:31 +0000
Subject: [PATCH 12/26] fix: append lost scalars, rejected non-string scalars
 and ignored its options

---
 pkg/processor/append/process.go | 29 ++++++++++++++++++++++-------
 1 file changed, 22 insertions(+), 7 deletions(-)

diff --git a/pkg/processor/append/process.go b/pkg/processor/append/process.go
index 6186b54..e19c8a5 100644
--- a/pkg/processor/append/process.go
+++ b/pkg/processor/append/process.go
@@ -26,15 +26,30 @@ import (
 
 func (p *Append) Process(evt processor.Event) error {
 	v := evt.Get(p.config.Field)
-	if v == nil {
+	if v == nil || v.Type == event.NullType {
+		if p.config.IgnoreMissing {
+			return nil
+		}
 		v = event.Array()
-		evt.Put(p.config.Field, v)
-	} else if v.Type == event.StringType {
-		v = event.Array(v)
-	} else if v.Type != event.ArrayType {
+	} else if v.Type == event.ObjectType {
 		return errors.New("value to append to is not array")
+	} else if v.Type != event.ArrayType {
+		v = event.Array(v)
 	}
 
-	v.Array = append(v.Array, event.String(p.config.Value))
-	return nil
+	if p.config.AllowDuplicates || !contains(v.Array, p.config.Value) {
+		v.Array = append(v.Array, event.String(p.config.Value))
+	}
+
+	_, err := evt.Put(p.config.Field, v)
+	return err
+}
+
+func contains(values []*event.Value, s string) bool {
+	for _, v := range values {
+		if v != nil && v.Type == event.StringType && v.String == s {
+			return true
+		}
+	}
+	return false
 }
-- 
2.43.0


From 581264e5e1a0285986b9d4e3c98d71ad11443cf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:31 +0000
Subject: [PATCH 13/26] fix: remove did not remove anything

---
 pkg/processor/remove/process.go | 31 +++++++++++++++++++++++++++++++
 pkg/processor/remove/remove.go  |  5 -----
 2 files changed, 31 insertions(+), 5 deletions(-)
 create mode 100644 pkg/processor/remove/process.go

diff --git a/pkg/processor/remove/process.go b/pkg/processor/remove/process.go
new file mode 100644
index 0000000..6f654fa
--- /dev/null
+++ b/pkg/processor/remove/process.go
@@ -0,0 +1,31 @@
+// Licensed to Elasticsearch B.V. under one or more contributor
+// license agreements. See the NOTICE file distributed with
+// this work for additional information regarding copyright
+// ownership. Elasticsearch B.V. licenses this file to you under
+// the Apache License, Version 2.0 (the "License"); you may
+// not use this file except in compliance with the License.
+// You may obtain a copy of the License at
+//
+//     http://www.apache.org/licenses/LICENSE-2.0
+//
+// Unless required by applicable law or agreed to in writing,
+// software distributed under the License is distributed on an
+// "AS IS" BASIS, WITHOUT WARRANTIES OR CONDITIONS OF ANY
+// KIND, either express or implied.  See the License for the
+// specific language governing permissions and limitations
+// under the License.
+
+package remove
+
+import (
+	"github.com/andrewkroh/go-sawmill/pkg/processor"
+)
+
+func (p *Remove) Process(evt processor.Event) error {
+	for _, field := range p.config.Fields {
+		if v := evt.Delete(field); v == nil && !p.config.IgnoreMissing {
+			return processor.ErrorKeyMissing{Key: field}
+		}
+	}
+	return nil
+}
diff --git a/pkg/processor/remove/remove.go b/pkg/processor/remove/remove.go
index 4d3965d..2b88a7a 100644
--- a/pkg/processor/remove/remove.go
+++ b/pkg/processor/remove/remove.go
@@ -65,8 +65,3 @@ func (p *Remove) Config() Config {
 func (p *Remove) String() string {
 	return processor.ConfigString(processorName, p.config)
 }
-
-func (p *Remove) Process(event processor.Event) error {
-	// TODO: Implement this in process.go.
-	return nil
-}
-- 
2.43.0


From 200d901d7b87737e459fca9cab82bf569412e8d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:31 +0000
Subject: [PATCH 14/26] fix: nested names containing dots were stored with a
 backslash

---
 pkg/eventutil/reflect.go               | 2 +-
 pkg/serialization/protobuf/protobuf.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/eventutil/reflect.go b/pkg/eventutil/reflect.go
index b0b6d5b..274f5d2 100644
--- a/pkg/eventutil/reflect.go
+++ b/pkg/eventutil/reflect.go
@@ -87,7 +87,7 @@ func interfaceToValue(ifc interface{}) (*event.Value, error) {
 				return nil, fmt.Errorf("failed on key %q: %w", k, err)
 			}
 
-			obj[EscapeKey(k)] = v
+			obj[k] = v
 		}
 		return event.Object(obj), nil
 	case nil:
diff --git a/pkg/serialization/protobuf/protobuf.go b/pkg/serialization/protobuf/protobuf.go
index e41c310..fac93c9 100644
--- a/pkg/serialization/protobuf/protobuf.go
+++ b/pkg/serialization/protobuf/protobuf.go
@@ -158,7 +158,7 @@ func toEventValue(v *Value) *event.Value {
 	case *Value_Object:
 		fields := make(map[string]*event.Value, len(t.Object.Fields))
 		for k, v := range t.Object.Fields {
-			fields[eventutil.EscapeKey(k)] = toEventValue(v)
+			fields[k] = toEventValue(v)
 		}
 		return event.Object(fields)
 	case *Value_String_:
-- 
2.43.0


From 988b27a28c2c7fd6ff2bab18b544baea2fef2560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:31 +0000
Subject: [PATCH 15/26] fix: ReflectValue rejected interface fields and
 panicked on nil errors

---
 pkg/eventutil/reflect.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/pkg/eventutil/reflect.go b/pkg/eventutil/reflect.go
index 274f5d2..a230c68 100644
--- a/pkg/eventutil/reflect.go
+++ b/pkg/eventutil/reflect.go
@@ -100,6 +100,13 @@ func interfaceToValue(ifc interface{}) (*event.Value, error) {
 func reflectToValue(rv reflect.Value) (*event.Value, error) {
 	typ := rv.Type()
 
+	switch typ.Kind() {
+	case reflect.Ptr, reflect.Interface:
+		if rv.IsNil() {
+			return event.NullValue, nil
+		}
+	}
+
 	switch {
 	case typ.Implements(errorInterface):
 		err := rv.Interface().(error)
@@ -107,10 +114,7 @@ func reflectToValue(rv reflect.Value) (*event.Value, error) {
 	}
 
 	switch typ.Kind() {
-	case reflect.Ptr:
-		if rv.IsNil() {
-			return event.NullValue, nil
-		}
+	case reflect.Ptr, reflect.Interface:
 		return reflectToValue(rv.Elem())
 	case reflect.Bool:
 		return event.Bool(rv.Bool()), nil
-- 
2.43.0


From 700dba4ab4994eb86be5ffee794037512528cdb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:31 +0000
Subject: [PATCH 16/26] fix: ReflectValue rejected named uintptr types

---
 pkg/eventutil/reflect.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/eventutil/reflect.go b/pkg/eventutil/reflect.go
index a230c68..7a07332 100644
--- a/pkg/eventutil/reflect.go
+++ b/pkg/eventutil/reflect.go
@@ -120,7 +120,7 @@ func reflectToValue(rv reflect.Value) (*event.Value, error) {
 		return event.Bool(rv.Bool()), nil
 	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
 		return event.Integer(rv.Int()), nil
-	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
+	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
 		return event.UnsignedInteger(rv.Uint()), nil
 	case reflect.Float32, reflect.Float64:
 		return event.Float(rv.Float()), nil
-- 
2.43.0


From c7fb5d3733507676c3aa7b3d46fb2c6a93972a38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:31 +0000
Subject: [PATCH 17/26] fix: ToLogEvent panicked on values without a kind or
 content

---
 pkg/serialization/protobuf/protobuf.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/pkg/serialization/protobuf/protobuf.go b/pkg/serialization/protobuf/protobuf.go
index fac93c9..f38c57c 100644
--- a/pkg/serialization/protobuf/protobuf.go
+++ b/pkg/serialization/protobuf/protobuf.go
@@ -141,11 +141,12 @@ func ToLogEvent(l *Log) *event.Event {
 
 func toEventValue(v *Value) *event.Value {
 	switch t := v.GetKind().(type) {
-	case *Value_Null:
+	case *Value_Null, nil:
+		// A value without a kind is the zero value of the message.
 		return event.NullValue
 	case *Value_Array:
-		items := make([]*event.Value, 0, len(t.Array.Items))
-		for _, x := range t.Array.Items {
+		items := make([]*event.Value, 0, len(t.Array.GetItems()))
+		for _, x := range t.Array.GetItems() {
 			items = append(items, toEventValue(x))
 		}
 		return event.Array(items...)
@@ -156,8 +157,8 @@ func toEventValue(v *Value) *event.Value {
 	case *Value_Integer:
 		return event.Integer(t.Integer)
 	case *Value_Object:
-		fields := make(map[string]*event.Value, len(t.Object.Fields))
-		for k, v := range t.Object.Fields {
+		fields := make(map[string]*event.Value, len(t.Object.GetFields()))
+		for k, v := range t.Object.GetFields() {
 			fields[k] = toEventValue(v)
 		}
 		return event.Object(fields)
-- 
2.43.0


From 98509c0ab511206d9867499790d2ceceed9a40fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:31 +0000
Subject: [PATCH 18/26] fix: ToEvent silently dropped fields whose name cannot
 be a key

---
 pkg/serialization/mapinterface/mapinterface.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/serialization/mapinterface/mapinterface.go b/pkg/serialization/mapinterface/mapinterface.go
index 99c769e..a36bc22 100644
--- a/pkg/serialization/mapinterface/mapinterface.go
+++ b/pkg/serialization/mapinterface/mapinterface.go
@@ -46,7 +46,9 @@ func ToEvent(m map[string]interface{}) (*event.Event, error) {
 
 	evt := event.New()
 	for k, v := range fields.Object {
-		evt.Put(eventutil.EscapeKey(k), v)
+		if _, err := evt.Put(eventutil.EscapeKey(k), v); err != nil {
+			return nil, err
+		}
 	}
 
 	return evt, nil
-- 
2.43.0


From 5fa3b4b468bc337f5de67a1c5b2fd7ee1e23d3e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:31 +0000
Subject: [PATCH 19/26] fix: sawmill wrote null for dropped events

---
 cmd/sawmill/sawmill.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/cmd/sawmill/sawmill.go b/cmd/sawmill/sawmill.go
index 11a8742..0e0d4b6 100644
--- a/cmd/sawmill/sawmill.go
+++ b/cmd/sawmill/sawmill.go
@@ -143,6 +143,11 @@ func processInput(in io.Reader, out io.Writer, pipe *pipeline.Pipeline) error {
 			continue
 		}
 
+		// Dropped event.
+		if evt == nil {
+			continue
+		}
+
 		if err := enc.Encode(evt); err != nil {
 			log.Printf("Unexpected error marshaling event from line %d to JSON: %v", lineNumber, err)
 			continue
-- 
2.43.0


From 6f1dc9ad807f38d013b9cd462fda78b8c71fe0e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:31 +0000
Subject: [PATCH 20/26] fix: docs generator ignored template errors

---
 docs/generate/generate.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/docs/generate/generate.go b/docs/generate/generate.go
index d2111a6..821c0e2 100644
--- a/docs/generate/generate.go
+++ b/docs/generate/generate.go
@@ -88,7 +88,7 @@ func main() {
 
 	// Render template.
 	buf := new(bytes.Buffer)
-	if templates.ExecuteTemplate(buf, "README.md.gotmpl", templateData); err != nil {
+	if err = templates.ExecuteTemplate(buf, "README.md.gotmpl", templateData); err != nil {
 		log.Fatal(err)
 	}
 
-- 
2.43.0


From aa9591a2f731863b1b6e65b003a143a4a71bb1c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:31 +0000
Subject: [PATCH 21/26] fix: Register panicked on a nil constructor

---
 pkg/processor/registry/registry.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/processor/registry/registry.go b/pkg/processor/registry/registry.go
index e641d2a..fe605f3 100644
--- a/pkg/processor/registry/registry.go
+++ b/pkg/processor/registry/registry.go
@@ -96,6 +96,9 @@ func (r *Registry) clear() {
 
 func validateConfig(i interface{}) (*processorConstructor, error) {
 	v := reflect.ValueOf(i)
+	if !v.IsValid() {
+		return nil, fmt.Errorf("value must be a function, but got nil")
+	}
 	t := v.Type()
 
 	if t.Kind() != reflect.Func {
-- 
2.43.0


From 087105a54b4819ec032abe504ffe68698c2682cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:28 +0000
Subject: [PATCH 22/26] fix: empty events, arrays and objects were encoded as
 JSON null

---
 pkg/event/event.go | 3 +++
 pkg/event/value.go | 6 ++++++
 2 files changed, 9 insertions(+)

diff --git a/pkg/event/event.go b/pkg/event/event.go
index 851fe16..cae4414 100644
--- a/pkg/event/event.go
+++ b/pkg/event/event.go
@@ -144,6 +144,9 @@ func (e *Event) delete(path []string) (deleted *Value) {
 }
 
 func (e *Event) MarshalJSON() ([]byte, error) {
+	if e.fields == nil {
+		return []byte("{}"), nil
+	}
 	return json.Marshal(e.fields)
 }
 
diff --git a/pkg/event/value.go b/pkg/event/value.go
index 7eabd39..7bc6796 100644
--- a/pkg/event/value.go
+++ b/pkg/event/value.go
@@ -74,6 +74,9 @@ type Value struct {
 func (v *Value) value() interface{} {
 	switch v.Type {
 	case ArrayType:
+		if v.Array == nil {
+			return []*Value{} // A nil slice would encode as null.
+		}
 		return v.Array
 	case BoolType:
 		return v.Bool
@@ -82,6 +85,9 @@ func (v *Value) value() interface{} {
 	case IntegerType:
 		return v.Integer
 	case ObjectType:
+		if v.Object == nil {
+			return map[string]*Value{} // A nil map would encode as null.
+		}
 		return v.Object
 	case StringType:
 		return v.String
-- 
2.43.0


From ace458f71cd9f319480388f230126d5b196cf8db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:28 +0000
Subject: [PATCH 23/26] fix: FromEvent made messages that cannot be encoded
 from nil entries

---
 pkg/serialization/protobuf/protobuf.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pkg/serialization/protobuf/protobuf.go b/pkg/serialization/protobuf/protobuf.go
index f38c57c..483a1d1 100644
--- a/pkg/serialization/protobuf/protobuf.go
+++ b/pkg/serialization/protobuf/protobuf.go
@@ -38,7 +38,12 @@ func FromEvent(evt *event.Event) *MessageWrapper {
 
 func fromEventValue(v *event.Value) *Value {
 	if v == nil {
-		return nil
+		// A message with a nil value in a repeated field cannot be encoded.
+		return &Value{
+			Kind: &Value_Null{
+				Null: ValueNull_NULL_VALUE,
+			},
+		}
 	}
 
 	switch v.Type {
-- 
2.43.0


From e99f89fc9710e9b00062b698bd5efecc7d3e1b6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:46 +0000
Subject: [PATCH 24/26] fix: reject nil constructor functions instead of
 panicking

---
 pkg/processor/registry/registry.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/processor/registry/registry.go b/pkg/processor/registry/registry.go
index fe605f3..50eca0e 100644
--- a/pkg/processor/registry/registry.go
+++ b/pkg/processor/registry/registry.go
@@ -104,6 +104,9 @@ func validateConfig(i interface{}) (*processorConstructor, error) {
 	if t.Kind() != reflect.Func {
 		return nil, fmt.Errorf("value must be a function, but got %v", t.Kind())
 	}
+	if v.IsNil() {
+		return nil, fmt.Errorf("value must be a function, but got a nil function")
+	}
 
 	// Check config.
 	if t.NumIn() != 1 {
-- 
2.43.0


From 72bcf50f95f515bc62ff0b29ec62611ac3eedd5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:48 +0000
Subject: [PATCH 25/26] fix: reject constructors whose error result cannot be
 nil; calling them panicked

---
 pkg/processor/registry/registry.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pkg/processor/registry/registry.go b/pkg/processor/registry/registry.go
index 50eca0e..db1216c 100644
--- a/pkg/processor/registry/registry.go
+++ b/pkg/processor/registry/registry.go
@@ -132,6 +132,11 @@ func validateConfig(i interface{}) (*processorConstructor, error) {
 	if !errorType.Implements(errorInterface) {
 		return nil, fmt.Errorf("function should return an error")
 	}
+	switch errorType.Kind() {
+	case reflect.Interface, reflect.Ptr, reflect.Map, reflect.Slice, reflect.Chan, reflect.Func:
+	default:
+		return nil, fmt.Errorf("function should return an error that can be nil, but returns %v", errorType.Kind())
+	}
 
 	pc := &processorConstructor{
 		newConfig: func() reflect.Value {
-- 
2.43.0


From 84ce927210c2c6b3a24ab500c161d2a9528fa5ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:27 +0000
Subject: [PATCH 26/26] fix: decode processor options by exact member names;
 "ID" was taken as id and as a setting

---
 pkg/pipeline/config.go | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/pkg/pipeline/config.go b/pkg/pipeline/config.go
index daa5fe2..c9cb5a2 100644
--- a/pkg/pipeline/config.go
+++ b/pkg/pipeline/config.go
@@ -61,11 +61,29 @@ func (c ProcessorConfig) getProcessor() (name string, opts *ProcessorOptionConfi
 // UnmarshalJSON contains a workaround for the lack of inline tag support in
 // encoding/json.
 func (c *ProcessorOptionConfig) UnmarshalJSON(data []byte) error {
-	// Prevent another call in this UnmarshalJSON.
-	type opts ProcessorOptionConfig
-	if err := json.Unmarshal(data, (*opts)(c)); err != nil {
+	// Decode the members by their exact names. Decoding into the struct would
+	// also match names that differ by case, like "ID".
+	var members map[string]json.RawMessage
+	if err := json.Unmarshal(data, &members); err != nil {
 		return err
 	}
+	id, cond, onFailure := c.ID, c.If, c.OnFailure
+	if m, found := members["id"]; found {
+		if err := json.Unmarshal(m, &id); err != nil {
+			return err
+		}
+	}
+	if m, found := members["if"]; found {
+		if err := json.Unmarshal(m, &cond); err != nil {
+			return err
+		}
+	}
+	if m, found := members["on_failure"]; found {
+		if err := json.Unmarshal(m, &onFailure); err != nil {
+			return err
+		}
+	}
+	c.ID, c.If, c.OnFailure = id, cond, onFailure
 
 	var raw map[string]interface{}
 	if err := json.Unmarshal(data, &raw); err != nil {
-- 
2.43.0

