import json
P=[]
def p(id,title,st,over,qt,why,files,mech,observe=None,state=None):
    d=dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=qt),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe or [],hook_needed=None))
    if state: d['anchors']['state']=state
    P.append(d)
R='v0/internal/raml/'
K='v0/pkg/raml/'
ALLT=[R+'APISpec.go',R+'Library.go',R+'DataType.go',R+'type-datatype-ext.go',R+'x-gen-type-*.go']
p('C01','Parsing and writing never panic, hang or half-succeed',
 'For any byte stream, parsing an API document or a library terminates without panicking and returns either a usable document or an error, never both and never neither. Any document that was accepted can be inspected and written out without a panic.',
 ['inputs'],'every byte string: well-formed RAML, legal YAML that is not RAML (empty keys, odd tags, nulls, aliases, deep nesting), and truncated or mutated garbage',
 'The existing 48 tests cover only four map types; no test parses anything, so no malformed or unusual input is ever exercised.',
 [K+'rparse/parse-api.go',K+'rparse/parse-lib.go',K+'rparse/decode.go',R+'fn-sorting-hat-type.go',R+'in-components.go',R+'x-gen-ex-*.go'],
 [('ParseApiDoc / ParseLibrary',K+'rparse'),('assign methods dispatching on YAML keys',R+'*.go: assign')],
 ['return values of ParseApiDoc and ParseLibrary','accessors and WriteRAML of the accepted documents'])
p('C02','API documents survive a read and write unchanged',
 'Writing a parsed API document yields a document with the same meaning as the one read: every node at every depth is present with its value and in its declaration order, nothing is added, lost, retyped or moved, and only spellings the RAML specification treats as equal may change. Every document built from the supported grammar can be read and written.',
 ['inputs'],'every RAML 1.0 API document in the supported grammar (all root nodes, all type kinds and facets, examples, annotations, resources, unknown nodes), without YAML anchors, aliases or merge keys, whose map keys are unique',
 'No test parses or writes a document; the property quantifies over all documents and interacts with every facet of every type.',
 [R+'APISpec.go',R+'Documentation.go',R+'util-dt-map.go',R+'util-untyped-map.go',R+'util-str-map.go']+ALLT[2:],
 [('APISpec.assign / UnmarshalYAML',R+'APISpec.go'),('APISpec.MarshalYAML / WriteRAML',R+'APISpec.go')],
 ['bytes given to ParseApiDoc','bytes written by WriteRAML'])
p('C03','Libraries survive a read and write unchanged',
 'Writing a parsed library yields a library with the same meaning as the one read: usage, uses, types, traits, resource types, security schemes, annotation types, annotations and unknown nodes keep their place, values and declaration order. Every library built from the supported grammar can be read and written.',
 ['inputs'],'every RAML 1.0 library in the supported grammar, including the empty one',
 'No test touches libraries at all.',
 [R+'Library.go',K+'rparse/parse-lib.go',K+'rparse/decode.go',K+'Library.go'],
 [('Library.assign / MarshalYAML / WriteRAML',R+'Library.go')],['bytes given to ParseLibrary','bytes written by Library.WriteRAML'])
p('C04','Type declarations keep every facet at any nesting depth',
 'A type declaration of any kind, wherever it stands (root types, object properties, array items, facet definitions), comes out of a read and write with exactly the facets it had, each with the same value, whether it was written as a name, an include or a map.',
 ['inputs'],'all type kinds x all facets x all nestings of properties and items',
 'No test parses a type declaration; facets interact with the kind, with defaults and with nesting.',
 ALLT[2:]+[R+'fn-sorting-hat-type.go',R+'fn-sorting-hat-property.go',R+'type-xml.go',R+'type-facet.go'],
 [('TypeSortingHat',R+'fn-sorting-hat-type.go'),('per kind assign and marshal',R+'x-gen-type-*.go')],['types nodes of the text read and written'])
p('C05','Examples keep value, metadata, strictness and form',
 'Examples of every kind, single or named, plain or expanded, come out of a read and write with the same value, display name, description, strictness, annotations and unknown facets. An example without metadata is written as the plain value, one with metadata in the expanded form, and a map value is never mistaken for metadata.',
 ['inputs'],'all example kinds x plain and expanded form x all value shapes, including map values whose keys look like example facets',
 'No test constructs or parses an example.',
 [R+'x-gen-ex-*.go',R+'example.go',R+'util-ex-map.go',R+'fn-sorting-hat-example.go','v0/gen/example-m.tpl'],
 [('UnmarshalRAML / MarshalRAML / ToYAML of examples',R+'x-gen-ex-*.go'),('ExampleSortingHat',R+'fn-sorting-hat-example.go')],
 ['example and examples nodes of the text read and written','Example.MarshalRAML'])
p('C06','Accessors report exactly what the document says',
 'After parsing, every accessor of the document, its types, examples, documentation entries and XML facets returns exactly the value the source text gives for that node, and reports it as absent (or as its RAML default) when the source does not give it.',
 ['inputs'],'every supported API document and library x every public accessor',
 'No test calls an accessor on a parsed document.',
 ALLT+[R+'x-gen-ex-*.go',R+'Documentation.go',R+'type-xml.go','v0/internal/util/assign'],
 [('assign helpers','v0/internal/util/assign/*.go'),('accessors',R+'x-gen-type-*.go')],['all public getters of the parsed document'])
p('C07','Every declaration is classified as the right kind of type',
 'The kind reported for a declaration, and the concrete interface it implements, follow from the declaration alone: a built-in name gives that kind, an expression with a bar a union, an include an include, any other name a custom type; without a type, properties make an object, items an array, and anything else a string, regardless of the order of the facets.',
 ['inputs'],'every type declaration, in every position and facet order',
 'No test classifies a declaration.',
 [R+'fn-sorting-hat-type.go',R+'fn-sorting-hat-property.go',R+'fn-sorting-hat-example.go',K+'rmeta'],
 [('typeToKind, siftType',R+'fn-sorting-hat-type.go')],['DataType.Kind, dynamic interface of the parsed types and their examples'])
p('C08','Setters, unsetters and getters obey their contract over any history',
 'After any sequence of set and unset calls on a document, library, type, example, documentation entry or XML facet, each getter returns the value of the last set or is empty after an unset (setting nil where allowed being an unset; a container is then a new empty one, never missing), and no call changes any other facet. Every setter and unsetter returns the object it was called on, and what is written afterwards reflects exactly that state.',
 ['histories'],'every sequence of mutations over every mutable public type, starting from built and from parsed objects',
 'No test calls a setter of any of these types.',
 ALLT+[R+'x-gen-ex-*.go',R+'Documentation.go',R+'type-xml.go'],
 [('Set*/Unset* methods',R+'*.go')],['getters after each step','fluent return values','WriteRAML at the end of the history'])
p('C09','Documents built through the API are written and read back faithfully',
 'A document or library assembled with the builder functions, setters and plain-mode maps is written as RAML that contains exactly the values that were set, and reading that text back gives a document whose accessors report the same values.',
 ['inputs','histories'],'every assembly of types, examples, maps and scalar values (any string, any finite number, nested lists and maps) through the public API, with map containers set to unordered serialization',
 'No test builds and writes a document.',
 [K+'rbuild/new.go']+ALLT+['v0/internal/util/yaml.go',K+'AnyMap.go',K+'UntypedMap.go'],
 [('MarshalYAML / marshal',R+'*.go'),('ToYAML of the maps',K+'*Map.go')],['bytes written by WriteRAML','accessors after reading them back'])
p('C10','Ordered maps behave as insertion-ordered maps over any history',
 'Over any sequence of operations each map type behaves as one abstract insertion-ordered map: puts move a key to the end, replacements keep its position, deletes close the gap, keys stay unique, and lookups, positions, lengths and iteration always agree with each other.',
 ['histories'],'every sequence of Put, PutIfNotNil, ReplaceOrPut, ReplaceIfExists, Delete and the queries on each of the 21 map types',
 'Tests exist for 4 of 21 map types and perform one or two operations each; none covers position after delete, replace or re-put in longer histories.',
 [K+'AnyMap.go',K+'UntypedMap.go',K+'StringMap.go',K+'*ExampleMap.go',K+'AnnotationMap.go',K+'DataTypeMap.go',K+'PropertyMap.go',K+'FacetMap.go'],
 [('ordered slice plus index',K+'*Map.go')],['results of every map operation'],
 [dict(name='ordered / index',meaning='entry list and lookup table that must describe the same map',where=K+'*Map.go')])
p('C11','Maps serialize all entries in order, in both modes and formats',
 'Serializing a map to YAML or JSON yields every entry exactly once with its value: in ordered mode as an ordered map or an array of key/value entries in map order, otherwise as a plain mapping or object, the YAML one in map order. Keys that print alike, which one JSON object cannot hold, make it fail rather than lose an entry. Serializing does not change the map and the ordered mode is the default.',
 ['inputs','histories'],'every content of every map type x ordered or unordered mode x YAML or JSON, after any history',
 'Tests serialize a single entry of four map types.',
 [K+'*Map.go','v0/internal/util/yaml.go'],[('ToYAML, MarshalYAML, MarshalJSON, SerializeOrdered',K+'*Map.go')],['output of ToYAML, MarshalYAML, MarshalJSON, yaml.Marshal, json.Marshal'])
p('C12','Declaration order is preserved',
 'Types, properties, examples, traits, resource types, security schemes, annotation types, annotations, uses, base URI parameters, resources, documentation entries, enum values and list items are reported by the accessors and written out in the order in which they were declared or added.',
 ['inputs','histories'],'every document with any number and permutation of entries in any of these containers',
 'No test has more than two entries in a container, and none writes one out.',
 [R+'APISpec.go',R+'Library.go',R+'util-*-map.go',K+'*Map.go',R+'x-gen-type-object.go'],
 [('ordered maps used for every section',R+'*.go')],['ForEach and At of the containers, order of keys in the written text'])
p('C13','Writing is deterministic and settles after one round',
 'Writing the same document twice, or documents parsed twice from the same text, gives identical bytes in every process. Reading what was written and writing it again reproduces it byte for byte.',
 ['inputs','histories'],'every document the parser accepts from the supported grammar, any number of repetitions and processes',
 'Nothing in the tests writes a document once, let alone twice.',
 [R+'APISpec.go',R+'Library.go',R+'type-xml.go',K+'*Map.go'],[('ordered maps instead of Go maps on the write path',K+'*Map.go')],['bytes written by repeated WriteRAML calls'])
p('C14','Reading and writing a document do not change it',
 'Calling any accessor, serializer or writer, successfully or not, leaves the document, library, type or map observably unchanged, so that later reads and writes give the same results as before.',
 ['histories','fault_sequences'],'every sequence of read-only calls, including writes that fail half way',
 'Tests never compare an object before and after a read.',
 [R+'*.go',K+'*Map.go'],[('value receivers and copies in the marshal code',R+'*.go')],['accessors and bytes before and after each call'])
p('C15','Read and write failures are always reported',
 'If the reader fails before the end of the input the parser returns an error and no document, and the result never depends on how the reader splits the input. If the writer fails at any point WriteRAML returns an error, and what reached the writer is a prefix of the complete output.',
 ['fault_sequences','crash_points'],'every position of a read error, every chunking of the input, every byte offset of a write error',
 'No test uses a failing or short reader or writer.',
 [K+'rparse',R+'APISpec.go',R+'Library.go'],[('error propagation in ParseApiDoc, ParseLibrary, WriteRAML',R+'APISpec.go')],['return values of the parse and write functions under injected faults'])
p('C16','Documents can be used from many goroutines',
 'Separate documents can be parsed, built, changed and written concurrently without affecting each other, and one document can be read and written out by many goroutines at once; there are no data races and every goroutine sees what a sequential run would show.',
 ['schedules'],'all interleavings of independent work on separate documents, and of read-only use of a shared document',
 'No test starts a goroutine or runs under the race detector.',
 [R+'*.go',K+'*Map.go',K+'rparse',K+'rbuild'],[('no package level mutable state; read paths that do not write',R+'*.go')],['race detector reports, results of each goroutine'])
p('C17','Values of the wrong type are rejected, never coerced',
 'A node the library models whose value has the wrong YAML type or lies outside the range of its facet makes parsing fail with an error. It is never silently converted, truncated, wrapped around, dropped or kept as an unknown facet.',
 ['inputs'],'every typed node of every construct, at any depth x every wrong YAML type and out-of-range number',
 'No test feeds a wrongly typed value.',
 ['v0/internal/util/assign']+ALLT+[R+'x-gen-ex-*.go',R+'Documentation.go',R+'type-xml.go'],[('Require*/To* checks','v0/internal/util/assign/*.go')],['error returned by the parse functions'])
p('C18','Output is one well-formed RAML document with the right header',
 'Everything WriteRAML emits for a document that was parsed, or assembled with plain-mode maps, is exactly one YAML document holding a mapping, preceded by the RAML 1.0 header line for that kind of document, using no YAML tags the source did not use. The header constants and the module type headers agree and name their fragment kind.',
 ['inputs'],'every API document and library, parsed or built',
 'No test writes a document or checks a header.',
 [R+'APISpec.go',R+'Library.go',K+'rmeta/headers.go',K+'rmod'],[('WriteRAML',R+'APISpec.go'),('ToHeader',K+'rmod')],['bytes written by WriteRAML'])
p('C19','RAML defaults are reported when absent and never hide a set value',
 'A facet with a RAML default reports that default when the document does not give it. A value that differs from the default is always written, and a facet at its default is not written.',
 ['inputs','histories'],'every facet with a default on every kind that has it x every value, in particular next to the default, set by parsing or through setters',
 'No test reads or writes any of these facets.',
 [K+'rmeta']+ALLT[2:]+[R+'x-gen-ex-*.go'],[('constructors and marshal conditions',R+'x-gen-type-*.go')],['accessors of built and parsed types, facets in the written text'])
p('C20','Equivalent spellings give equal documents',
 'Texts that RAML and YAML define as equivalent parse to documents that report the same values and are written identically: types and schemas, type and schema, short and expanded types and examples, scalar and list media types, explicit defaults, facet order, flow and block style, quoting, comments, aliases of repeated nodes and JSON syntax.',
 ['inputs'],'every document x every combination of meaning-preserving rewrites',
 'Tests have no notion of two texts for one document.',
 [R+'APISpec.go',R+'Library.go',R+'fn-sorting-hat-type.go']+ALLT[2:],[('alias handling in assign',R+'*.go'),('resolving YAML aliases',K+'rparse/decode.go')],['accessors and bytes of the documents parsed from both texts'])
p('C21','Separate objects share no state',
 'Changing one document, type, example, map or container obtained from it never changes another object: neither one built or parsed separately, even from the same text or buffer, nor the containers that replaced it after an unset.',
 ['histories'],'every pair of independently created objects of every public type x every mutation',
 'Tests never use two objects at once.',
 [R+'*.go',K+'*Map.go',K+'rbuild/new.go'],[('fresh containers in every constructor and unsetter',R+'*.go')],['accessors of the untouched object'])
p('C22','Regenerating the library from its templates reproduces it',
 'Running the code generators on the templates gives a library that compiles and behaves exactly like the committed one on every workload.',
 ['programs','inputs'],'the generated sources of all type and example kinds x the workload of documents',
 'The tests neither run the generators nor exercise any generated type.',
 ['v0/gen','v0/tools/gen',R+'x-gen-*.go',K+'x-gen-*.go'],[('text templates','v0/gen/*.tpl'),('generators','v0/tools/gen/*/main.go')],['output digest of the workload on both builds'])
p('C23','Unknown and free-form content is kept verbatim',
 'Nodes the library does not interpret (unknown facets at every level, traits, resource types, security schemes, annotation types, resources, annotation contents, base URI parameters and untyped example values) are exposed under their own key (the key of an unknown facet as a text) and come out of a write with the same structure, scalar types, tags and order at every depth.',
 ['inputs'],'every YAML value (nested lists and maps, every scalar type and style, local tags such as includes) in every free-form position',
 'No test has an unknown facet or a nested value.',
 [R+'in-components.go',R+'util-untyped-map.go',R+'APISpec.go',R+'Library.go',R+'x-gen-ex-*.go',R+'type-xml.go'],[('raw YAML nodes kept in extra and untyped maps',R+'*.go')],['ExtraFacets and untyped sections after parsing, the written text'])
p('C24','Legal RAML within the modelled constructs is accepted',
 'Every RAML 1.0 document that uses the constructs the library models in a way the specification allows is accepted by the parser, whatever the order, spelling or nesting of its nodes.',
 ['inputs'],'all combinations of modelled constructs, each in every form the specification allows',
 'No test parses a document.',
 ALLT+[R+'x-gen-ex-*.go','v0/internal/util/assign'],[('assign methods',R+'*.go')],['error returned by the parse functions'])
p('C25','Values that cannot be written are reported',
 'If a document, type, map or container holds a value that has no YAML form (a channel, a function, a structure, a text that is not UTF-8, a failing marshaler), at any depth, then every writer and serializer of every object that contains it reports an error and does not panic, drop or replace the value. Objects that do not contain it are written as if it did not exist.',
 ['inputs','fault_sequences'],'every kind of unwritable value x every place that holds a value x every serializer of every object around it',
 'No test writes a document.',
 ['v0/internal/util/yaml.go',R+'DataType.go',R+'x-gen-*.go',R+'APISpec.go',R+'Library.go',K+'*Map.go'],[('error returns of the conversion','v0/internal/util/yaml.go')],['errors of WriteRAML, ToRAML, ToYAML, MarshalYAML and MarshalJSON'])
p('C26','All ways to serialize an object agree',
 'WriteRAML, ToRAML, ToYAML, MarshalYAML and MarshalRAML of one object, wherever it is offered, mean the same, and mean what the accessors of the object report, for documents, types of all kinds, examples, documentation entries, XML facets and maps in plain mode, whether parsed or assembled.',
 ['inputs'],'every object that can be reached from every document x every serializer it offers',
 'No test serializes anything but a map of two entries.',
 [R+'DataType.go',R+'Documentation.go',R+'type-xml.go',R+'x-gen-ex-*.go',R+'x-gen-type-*.go',R+'APISpec.go',R+'Library.go',K+'*Map.go'],[('marshal methods',R+'*.go')],['results of the serializers read back, accessors'])
p('C27','A node read by itself means what it means in a document',
 'A declaration, example or documentation entry read from a YAML node through UnmarshalRAML, and a whole document read through the YAML library, report and write the same as inside a parsed document. A node that makes a document unreadable is refused by itself too, and reading never changes the node.',
 ['inputs'],'every node of a declaration (null apart, which names no type by itself), example or documentation entry of every kind, sound or with one wrong value x every route to read it',
 'No test reads a node.',
 [R+'DataType.go',R+'Documentation.go',R+'x-gen-ex-*.go',R+'x-gen-type-include.go',R+'APISpec.go',R+'Library.go',K+'marshaling.go'],[('UnmarshalRAML / UnmarshalYAML',R+'*.go')],['error, accessors and ToRAML of the object read'])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,s); assert x['statement'].count('. ')<=2,(x['id'])
print(len(P))
