#!/usr/bin/env python3
# Writes /verif/properties.jsonl (source of truth for the property texts).
import json
P=[]
def p(id,title,st,over,q,why,files,mech,obs,state=None):
    P.append(dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=q),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=obs,
                   **({"state":state} if state else {}),hook_needed=None)))
EV="pkg/event/event.go"
p("C01","A successful Put is read back by Get",
 "For every key that names at least one path segment and every non-nil value, if Event.Put returns no error then Get of the same key returns exactly the value that was put, and Put returned exactly what Get returned for that key before the call (nil if nothing was there). Put fails only for a key without segments or when a proper prefix of the key holds something that is not an object; Put of a nil value changes nothing and returns nil, nil.",
 ["inputs","histories"],"every event whose contents form a tree, every key string (any bytes), every value",
 "Tests use four one- or two-segment keys on hand-built events; the claim ranges over all event shapes, key depths and partially existing paths.",
 [EV],[("path walk that creates missing objects, then one map store","Event.put"),("path walk","Event.get")],
 ["return values of Event.Put and Event.Get"],[dict(name="fields",meaning="root object of the event",where="Event.fields")])
p("C02","Put touches only the addressed field; a failed Put changes nothing",
 "After a successful Put or TryPut of key K, every field of the event whose path does not lie at or below K's path reads back exactly as before, except that missing parents of K now exist as objects. When Put or TryPut returns an error, every field reads back exactly as before.",
 ["inputs","histories"],"every tree-shaped event, every key, every other path",
 "Tests look only at the field they wrote; the frame condition quantifies over all other paths and all ways a path can be partly present.",
 [EV],[("writes only at the first missing or last segment","Event.put")],["Event.Get of every other path","JSON encoding of the event"])
p("C03","TryPut never overwrites an existing value",
 "If a value is present at the key, Event.TryPut returns that value together with an error matching ErrKeyExists and leaves the event unchanged; if none is present it behaves exactly like Put. A blocked path yields ErrTargetKeyNotObject and a key without segments yields ErrEmptyKey, and the returned errors match these sentinels under errors.Is.",
 ["inputs","histories"],"every event, key and value",
 "One test case tries one top-level key; nested keys, null values and blocked paths are not sampled.",
 [EV],[("existence test before the write","Event.put")],["return values of Event.TryPut","event contents"])
p("C04","Delete removes exactly the addressed field",
 "Event.Delete(K) returns what Get(K) would have returned; if that is a value, afterwards Get(K) returns nil and every field whose path is not at or below K's path reads back exactly as before. If nothing is present at K, or K has no segments, Delete returns nil and the event is unchanged.",
 ["inputs","histories"],"every tree-shaped event and every key, at every nesting depth",
 "The nested-delete test has a single leaf and never looks at siblings of the deleted field.",
 [EV],[("walk to the parent object, delete one entry","Event.delete")],["Event.Delete, Event.Get","JSON encoding"])
p("C05","Dotted keys address paths: segments split at unescaped dots",
 "A key addresses the path obtained by splitting it at every dot not immediately preceded by a backslash, dropping empty segments, turning an escaped dot into a literal dot and dropping every other backslash. Get of a key with no segments returns an object holding the event's root fields (nil for an empty event); Put and TryPut of such a key fail with an error matching ErrEmptyKey.",
 ["inputs"],"every key string, any bytes, any length",
 "Nine hand-picked keys are tested; runs of dots, trailing or doubled backslashes, and non-ASCII bytes are not.",
 [EV],[("single pass over the key with an escape flag","keyToPath")],["Get/Put/Delete through dotted keys"])
p("C06","EscapeKey turns any field name into a one-segment key",
 "For every non-empty name that contains no backslash, the key EscapeKey(name) addresses the single path segment that is exactly name; names without dots are returned unchanged.",
 ["inputs"],"every byte string without backslashes",
 "EscapeKey has no test of its own; the claim is an inverse law over all strings.",
 ["pkg/eventutil/event.go",EV],[("dot replacement","EscapeKey"),("escape handling","keyToPath")],["Put(EscapeKey(n), v) followed by inspection of the root object"])
p("C07","Event operations never panic on any well-formed or decoded event",
 "Get, Put, TryPut and Delete return normally for every key on every event, including events decoded from JSON that contain nulls or empty objects, objects whose map is nil, nil entries, and events that were never written.",
 ["inputs","histories"],"every event reachable through the API or JSON decoding, every key and value",
 "Tests never decode a null or store an object with a nil map before addressing a path through it.",
 [EV,"pkg/event/value.go"],[("nil checks on the walk","Event.get, Event.put, Event.delete")],["absence of panics"])
p("C08","Processors run in order; failures go to the right on_failure handlers",
 "A pipeline runs its processors in definition order and stops at the first one that fails without recovering; a failing processor's own on_failure handlers run in order right after it and the failure counts as recovered when all of them succeed. If a failure remains, the pipeline's on_failure processors run in order; the event is returned when they all succeed, and otherwise (or when there are none) Process returns no event and the error of the last processor that failed.",
 ["inputs","programs","fault_sequences"],"every pipeline shape and nesting of handlers, every pattern of processor results",
 "Two pipelines with fixed failures are exercised; the claim is over all handler nestings and all failure patterns.",
 ["pkg/pipeline/pipeline.go","pkg/pipeline/processor.go"],[("processor loop and global handler","Pipeline.process"),("local handler","pipelineProcessor.Process")],
 ["order of Processor.Process calls","result of Pipeline.Process"])
p("C09","ignore_failure and ignore_missing suppress exactly their errors",
 "With ignore_missing set, a processor error that is a missing-key error is swallowed before any handler runs and processing continues; other errors are not affected by it. With ignore_failure set, an error that its handlers did not recover is swallowed after the handlers ran; with neither set no unrecovered error is ever swallowed.",
 ["inputs","configurations","fault_sequences"],"all four flag combinations, every error value (wrapped or not), every handler outcome",
 "One golden file sets each flag once; wrapped missing-key errors and flag/handler combinations are not sampled.",
 ["pkg/pipeline/processor.go","pkg/processor/error.go"],[("ordered checks after a failed processor","pipelineProcessor.Process"),("errors.Is support","ErrorKeyMissing.Is")],
 ["calls to later processors","returned error"])
p("C10","Per-processor metrics account for every event exactly once",
 "Each execution of a processor adds one to its received counter and one to exactly one of its sent, errors and discarded counters: errors exactly when its failure is neither ignored nor recovered, discarded exactly when the event has been dropped by the end of it, sent otherwise. No other counter of any processor outside its handlers changes.",
 ["inputs","fault_sequences"],"every processor result, flag combination and handler outcome",
 "No test reads a counter.",
 ["pkg/pipeline/processor.go"],[("counter increments on each exit path","pipelineProcessor.Process")],["prometheus counters from Pipeline.Metrics"])
p("C11","Drop and Cancel stop processing with the documented result",
 "Once a processor or handler drops the event, no further processor or handler runs for it and Pipeline.Process returns no event and no error. Once one cancels the event, no further processor or handler runs for it, and Process returns the event (or the cancelling processor's own unignored error).",
 ["inputs","fault_sequences"],"drop or cancel at any processor or handler at any nesting depth, with or without an error",
 "No shipped processor drops or cancels, and no test does.",
 ["pkg/pipeline/event.go","pkg/pipeline/pipeline.go","pkg/pipeline/processor.go"],[("flags on the wrapped event","pipelineEvent.Drop, Cancel"),("flag checks","Pipeline.process, pipelineProcessor.Process")],
 ["result of Pipeline.Process","calls to later processors"])
p("C12","Pipeline construction is faithful to its configuration or fails",
 "pipeline.New succeeds only if the configuration has a non-empty id and every processor entry, at every on_failure nesting level, names exactly one registered processor that can be constructed; then the pipeline has exactly one processor per entry, in the configured order and nesting, with the flags of that processor's configuration. Every processor's component id is its configuration path, <pipeline id>.processors[i].<type> or <pipeline id>.on_failure[i].<type>, extended by .on_failure[j].<type> for nested handlers.",
 ["configurations"],"every configuration, any nesting and length",
 "Three sample configurations are built and none is checked structurally; error positions and nested ids are not looked at.",
 ["pkg/pipeline/config.go","pkg/pipeline/pipeline.go","pkg/pipeline/processor.go"],[("recursive construction","newPipelineProcessors, newPipelineProcessor"),("one-entry rule","ProcessorConfig.getProcessor")],
 ["pipeline.New result","component_id metric labels"])
p("C13","Metrics lists every processor's collectors exactly once",
 "Pipeline.Metrics returns, for each processor of the pipeline, each of its on_failure handlers at any depth and each processor of the pipeline's own on_failure list, its four counters exactly once and nothing else. metrics.Register offers every collector it is given to the registry that is served, even where another is refused, and metrics.Unregister withdraws every one.",
 ["configurations"],"every pipeline shape, every list of collectors",
 "Metrics, Register and Unregister are never called by a test.",
 ["pkg/pipeline/pipeline.go","pkg/metrics/metrics.go"],[("recursive visitor","Pipeline.visitProcessors, visitProcessor"),("one call of the registry per collector","metrics.Register, metrics.Unregister")],["slice returned by Pipeline.Metrics","metrics served by metrics.Listen"])
p("C14","Processing an event never changes the pipeline or other events",
 "The set processor stores a deep copy of the configured value (or of the copy_from field): no object, array or value reachable from the target field is shared with the processor's configuration or with another field. Hence no later modification of one event changes the pipeline's configuration, another event, or another field.",
 ["histories","inputs"],"every configured value (scalars, arrays, nested objects), every event, every later modification",
 "Tests process one event per pipeline with scalar values and never modify the result.",
 ["pkg/processor/set/process.go"],[("deep copy before Put","Set.Process")],["events processed after modifying an earlier result"])
p("C15","append extends the array at its field and keeps what was there",
 "After a successful append the field holds an array: its previous elements in order (a previous scalar becomes the first element; a missing or null field contributes none), followed by the configured value as a string, which is left out when duplicates are not allowed and an equal string is already present. Append fails, leaving the event unchanged, when the field is an object or cannot be created, and with ignore_missing a missing or null field is left alone.",
 ["inputs","configurations"],"every event, field type, value and option combination",
 "Golden files append single letters to an absent or array field; scalars, duplicates and other types are never appended to.",
 ["pkg/processor/append/process.go"],[("normalise to array, then append and store","Append.Process")],["event contents after Process"])
p("C16","lowercase/uppercase convert a string field into the target field",
 "If the source field holds a string, the processor stores the string's lower (upper) case form at target_field, or at the source field when no target is configured, and changes nothing else. A missing or null source yields a missing-key error naming the field, and any other type or an impossible target yields another error; in all these cases the event is unchanged.",
 ["inputs","configurations"],"every event, field, target and string",
 "A few ASCII strings are lowercased in golden files; uppercase is never run.",
 ["pkg/processor/lowercase/process.go","pkg/processor/uppercase/process.go"],[("type check, convert, Put","Lowercase.Process, Uppercase.Process")],["event contents and error"])
p("C17","remove deletes all configured fields",
 "The remove processor deletes each configured field in order. If one is missing it fails with a missing-key error naming that field and goes no further, unless ignore_missing is set, in which case missing fields are skipped and every present one is still removed; nothing outside the named fields changes.",
 ["inputs","configurations"],"every list of fields, every event",
 "remove has no test.",
 ["pkg/processor/remove/remove.go"],[("delete loop","Remove.Process")],["event contents and error"])
p("C18","Events convert to plain Go maps faithfully",
 "mapinterface.FromEvent yields, recursively, for each field of the event an entry of the same name holding the Go value of the same kind and content (string, bool, int64, uint64, float64, UTC time, nil for null, slice in order, nested map). For a map of plain Go values whose names are non-empty and contain no backslash, FromEvent(ToEvent(m)) has exactly the same names and contents at every depth.",
 ["inputs"],"every event; every map, any depth, names with dots included",
 "One hand-built map is converted in each direction; nested dotted names and other kinds are not.",
 ["pkg/serialization/mapinterface/mapinterface.go","pkg/eventutil/reflect.go"],[("recursive conversion","fromEventValue, fromEventValueObject, ToEvent")],["FromEvent and ToEvent results"])
p("C19","Protobuf conversion round-trips every event",
 "For every non-empty event whose top-level names are non-empty and contain no backslash, ToLogEvent(FromEvent(e).GetLog()) is an event with exactly the same fields, types and contents at every depth (nil entries become null; the message holds no nil value, so that it can be encoded); conversion never panics on a decoded message.",
 ["inputs"],"every event and nesting, every value kind including all float, integer and byte-string values",
 "One event with three value kinds is round-tripped; arrays, nulls, floats, bools, unsigned and nested dotted names are not.",
 ["pkg/serialization/protobuf/protobuf.go"],[("recursive conversion in both directions","fromEventValue, toEventValue, ToLogEvent")],["ToLogEvent after FromEvent"])
p("C20","Go values convert to event values of the right type and content",
 "ReflectValue maps bools, every integer and float kind, strings, times, errors, nil and nil pointers, pointers, interfaces, slices, arrays, maps and structs (also under named types) to the event value of the corresponding type with the same content, recursively and keeping map keys as written; channels, functions and complex numbers give an UnsupportedTypeError and never a panic. A processor option of type config.EventValue takes over exactly that value, or reports that error.",
 ["inputs"],"every acyclic Go value",
 "One string slice is converted in its own test and one fixed map in another.",
 ["pkg/eventutil/reflect.go","pkg/eventutil/structtag.go","pkg/config/config.go"],[("type switch and reflection walk","interfaceToValue, reflectToValue")],["ReflectValue result"])
p("C21","Event values encode to and decode from JSON by their type",
 "Encoding an event gives the JSON object with the same field names at every depth, each value encoded by its type alone (null, array, bool, number, object, string; timestamps as an RFC 3339 UTC string that denotes the same nanosecond). Decoding a JSON object into an event and encoding it again gives an equal JSON document, and decoded values have the type of their JSON kind, null included.",
 ["inputs"],"every value, every JSON object",
 "A handful of values are encoded; decoding is only exercised through golden files without nulls, bools or nested arrays.",
 ["pkg/event/value.go","pkg/event/event.go","pkg/event/time.go"],[("payload selection by type","Value.value"),("kind dispatch","Value.UnmarshalJSON"),("timestamp format","Time.MarshalJSON")],["json.Marshal / json.Unmarshal of events"])
p("C22","The registry keeps the first constructor and builds fresh processors",
 "Registering a name twice fails and keeps the first constructor; a value that is not a constructor of the required shape is rejected with an error and registers nothing. NewProcessor fails for an unknown name, and otherwise passes the constructor a configuration holding exactly the defaults overridden by the given options, never one shared with an earlier call, and returns the constructor's processor or its error.",
 ["histories","configurations"],"every sequence of registrations and constructions",
 "One registration and one construction are tested.",
 ["pkg/processor/registry/registry.go"],[("name lookup before store","Registry.Register"),("fresh config per call","Registry.NewProcessor, validateConfig")],["Register and NewProcessor results"])
p("C23","The command line emits one JSON line per processed input line",
 "For each non-blank input line, in order, sawmill processes an event holding the trimmed line as event.original and its 1-based line number as @metadata.line_number; it writes the resulting event as one JSON line, and writes nothing for blank lines, for lines whose processing fails and for dropped events. A failing line never stops the lines after it.",
 ["inputs","fault_sequences"],"every input text (lines within the scanner's limit) and every pipeline behaviour",
 "cmd/sawmill has no tests.",
 ["cmd/sawmill/sawmill.go"],[("scan loop","processInput")],["lines written to the output"])
p("C24","eventutil.Append appends in order without losing anything",
 "eventutil.Append leaves at the key an array holding the previous elements in order (a previous non-array value becomes the first element, a missing one contributes none) followed by the item, or by the item's elements in order when the item is itself an array; a nil item changes nothing. On error the event is unchanged.",
 ["inputs","histories"],"every event, key and item",
 "Append has no test.",
 ["pkg/eventutil/event.go"],[("normalise to array, append, Put","Append")],["event contents after Append"])
p("C25","Processor options survive JSON decoding and encoding",
 "Decoding a processor's JSON options puts id, if and on_failure into their own fields and every other member, and only those, into the processor configuration with its decoded value; encoding writes each non-empty special field and every configuration member. An entry naming zero or several processors is rejected when the pipeline is built, and an entry with null options builds the processor with default options.",
 ["inputs","configurations"],"every options object",
 "One sample configuration without id or if is decoded and encoded.",
 ["pkg/pipeline/config.go"],[("two-pass decode","ProcessorOptionConfig.UnmarshalJSON"),("merge on encode","ProcessorOptionConfig.MarshalJSON")],["json.Unmarshal / json.Marshal of pipeline configurations"])
open("/verif/properties.jsonl","w").write("".join(json.dumps(x,ensure_ascii=False)+"\n" for x in P))
print(len(P), max(len(x["title"]) for x in P))
