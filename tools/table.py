TR = ['transform/transformer.go', 'transform/transform.go', 'transform/instance.go', 'transform/operations.go', 'transform/utils.go']
TRACE = 'TLA+ reference semantics, TLC trace validation of the real transformer'
FUNC = 'TLA+ specification of the transformer as a function, TLC validation of recorded histories'
NOTE = ('Every recorded call of the real library is replayed by TLC against the specification; what was not generated was not seen. '
        'Trusted: TLC, the rendering of schemas and values for the specification, and (C10) the transcription of the schema keywords.')

prop('C01', 'A transformer keeps no memory of earlier inputs',
     'The result of transforming an input depends only on the schema and that input: however many inputs a transformer, or another one made from the same loaded schema, '
     'has already processed, successfully or not, each call returns what it would return first thing in a fresh process. '
     'Nothing a call does shows up in a later one, and the bytes of the input are left alone.',
     ['histories', 'inputs'], 'Every schema, every sequence of inputs to one or more transformers sharing a loaded schema.',
     'The tests make a new transformer for each input and call it once; leaks through defaults, transform instructions or arrays kept in the transformer need particular schemas and a second call.',
     TR, [('defaults and input objects copied before they are filled', 'transform/instance.go objectTransformer.transform, copyMap'),
          ('array base copied before items change it', 'transform/instance.go arrayTransformer'),
          ("order of 'last' instructions fixed when made", 'transform/transform.go')],
     FUNC, 'Each result is compared with the same call made first thing in a process of its own, so the oracle is the code itself, isolated; histories are random, of up to 12 inputs on two transformers. ' + NOTE)

prop('C02', 'Concurrent transforms give the results of sequential ones',
     'Any number of goroutines may share a transformer, or several made from one loaded schema, for JSON as for XML: every call returns the value it has alone, without data race, panic or deadlock.',
     ['schedules', 'inputs'], 'Every interleaving of calls by any number of goroutines on transformers that share a schema.',
     'The tests transform from one goroutine.',
     TR, [('no state in the transformer after it is made', 'transform/transformer.go Transformer.Transform'), ('copies of defaults and input objects', 'transform/instance.go')],
     FUNC + ' of 8 callers, also in a -race build', 'Schedules are those the Go scheduler takes with 8 goroutines released at once on 8 cores, twice, once with the race detector deciding every pair of unsynchronised accesses it sees. ' + NOTE,
     state=[{'name': 'instance tree', 'meaning': 'shared between all calls, must not be written', 'where': 'transform/transformer.go Transformer.root'}])

prop('C03', 'Output does not depend on how schema and input are written down',
     'The same schema and input yield the same output however they are notated: order of properties and object members, white space, number notation and string escapes in the text make no difference. '
     'Repeating the transform, with new transformers and in new processes, reproduces the output, whatever order the fields are evaluated in.',
     ['inputs', 'configurations'], 'Every schema and input, every notation of either, every evaluation order of sibling fields.',
     'Go map iteration and JSON text admit many orders; a test sees one per run and asserts on one notation.',
     TR + ['jsonschema/walk.go'], [('each sibling reads the input, not its siblings', 'transform/instance.go objectTransformer.transform'), ('map ordered json output', 'transform/transformer.go')],
     FUNC + ' in several notations', 'Five notations of every schema and input are compared with the isolated result of the first. ' + NOTE)

prop('C04', 'A scalar takes its value from transform, same path, then default',
     'A scalar field with transform instructions gets their value; when there are none, or none of them yields a value, it gets the value at the same path of the input; when that is missing or not of the type it gets the default; and without a default it is left out. '
     'A value of null in the input does not count as present, while false, 0 and the empty string do.',
     ['inputs', 'configurations'], 'Every combination of transform section, presence and value at each source path, same-path value, default and type, at every depth.',
     'The tests hold a few dozen examples of single fields; the rules interact with depth, nulls and falsy values.',
     TR, [('order of the sources', 'transform/instance.go scalarTransformer.transform'), ('no value vs null', 'transform/transform.go')],
     TRACE, NOTE)

prop('C05', 'first, last and concatenate combine the sources as documented',
     'With the method first a field takes the first instruction, in order, which yields a value; with last the last one which does; with concatenate all the values joined, in order, by the delimiter. '
     'An instruction whose path is missing or whose value is null yields nothing and does not disturb the others.',
     ['inputs', 'configurations'], 'Every number and order of instructions, every pattern of present, missing, null and failing sources, JSON and XML.',
     'Tests have two or three sources, mostly all present.',
     TR, [('method selection', 'transform/transform.go transformInstructions'), ('concatenate', 'transform/utils.go concat')], TRACE, NOTE)

prop('C06', 'Operations of an instruction apply in order, and a failure fails the call',
     'The operations of an instruction are applied in the order of the schema, each to the result of the one before. '
     'An operation which cannot handle its input makes the whole transform fail with an error, except where it is documented to yield no value, and is never silently skipped.',
     ['inputs', 'configurations'], 'Every chain of operations with every kind of value passed along.',
     'Operations are tested one by one.',
     TR, [('operation loop', 'transform/transform.go'), ('operations', 'transform/operations.go')], TRACE, NOTE)

prop('C07', 'Each operation computes what the documentation says, for all arguments',
     'changeCase, currentTime, duration, inverse, max, replace, split, timeParse, toCamelCase, removeHTML, valueExists and the conversions yield, for every input and argument, the documented result, and an error for inputs of the wrong kind.',
     ['inputs'], 'Every operation, every argument, every input value including wrong types, empty, negative, unicode and malformed ones.',
     'Each operation has a handful of table tests.',
     ['transform/operations.go', 'transform.adoc', 'transformSchema.json'], [('the operations', 'transform/operations.go'), ('argument checks', 'transform/operations.go requiredArgs')],
     TRACE, 'The operations are written out again in TLA+ (dates, strings, decimal numbers, a subset of regular expressions); inputs stay within what those modules model, see DESIGN.md. ' + NOTE)

prop('C08', 'Arrays are built per element, each with its own index',
     'An array field gets the elements its instructions or the same path give, a lone value counting as one element; every item is transformed with the paths of the element it came from, at every depth of nesting, and items keep their order and number. '
     'Elements which yield nothing are left out and never take the value of another element or of another array.',
     ['inputs', 'configurations'], 'Every nesting of arrays and objects, transformed or not, with paths above, at and below the element, and lone values in place of arrays.',
     'Tests have at most two levels and no mixture of transformed and copied arrays.',
     TR, [('index substitution along the path', 'transform/instance.go arrayTransformer, transform/utils.go'), ('wrapping of lone values', 'transform/instance.go')], TRACE, NOTE)

prop('C09', 'XML input is transformed as xmlPath says',
     'With an XML transformer a field gets the text of the first node its xmlPath selects, converted to its type, and an array one element per node selected, with relative paths inside evaluated at that node; sources, methods, operations, defaults and omission follow the same rules as for JSON. '
     'Malformed XML is an error.',
     ['inputs', 'configurations'], 'Every schema with xmlPath instructions and every XML document, with attributes, repeated, missing and nested elements.',
     'Half a dozen XML examples are tested.',
     TR, [('xmlquery access', 'transform/transform.go'), ('XML branch of objects and arrays', 'transform/instance.go')],
     TRACE, 'XPath is modelled for child steps, //, attributes, positions and text(); other XPath is trusted to xmlquery. ' + NOTE)

prop('C10', 'Transform never returns a document its schema rejects',
     'Transform returns either an error or a document which is valid for the schema, and it fails only if the transform itself fails or its result is not valid. '
     'TransformNoValidation returns that same document without the check.',
     ['inputs', 'configurations'], 'Every schema and input, where the result may violate type, required, enum, bounds, pattern, format, items or additionalProperties at any depth.',
     'A few examples of invalid results are tested.',
     ['transform/transformer.go', 'jsonschema/validator.go', 'jsonschema/schema.go'], [('validation of the output', 'transform/transformer.go Transform'), ('validator', 'jsonschema/validator.go')],
     TRACE + ', schema validity written in TLA+', 'Schema validity is an independent TLA+ definition of the keywords used. ' + NOTE)

prop('C11', 'Values are converted to the declared type or not at all',
     'A value found at the same path is emitted with the type the schema declares, converted between strings, booleans and numbers without changing its meaning, dates normalised to RFC 3339; if it cannot be converted the default is used. '
     'A value an instruction selects is converted in the same way where possible and otherwise handed on unchanged, never as zero, false or an empty string.',
     ['inputs'], 'Every pair of declared type and input value, including huge, fractional, negative, empty, padded and malformed values.',
     'The conversions have a table of common cases.',
     ['transform/utils.go', 'transform/instance.go'], [('convert', 'transform/utils.go')], TRACE, NOTE)

prop('C12', 'Only declared fields appear, only instructions of the own identifier count',
     'Output objects hold only fields the schema declares, unless their own instructions or default supply an object with others, or they are declared without properties, when they are copied whole. '
     'Transform sections for other identifiers, whatever they say, change nothing.',
     ['inputs', 'configurations'], 'Every input with undeclared content and every schema with several transform identifiers.',
     'Tests have one identifier per schema, or two which do not collide.',
     TR, [('selection of the transform section', 'transform/instance.go, transform/transform.go'), ('objects without properties', 'transform/instance.go')], TRACE, NOTE)

prop('C13', 'No input makes the transformer panic or hang',
     'Whatever bytes are passed to a transformer, it returns a value or an error within bounded time and never both.',
     ['inputs'], 'Every byte string as input: not JSON, not XML, wrong shapes at every level, nulls, deep values.',
     'Tests pass inputs of the expected shape.',
     TR, [('type checks', 'transform/instance.go'), ('errors of the parsers', 'transform/transformer.go')], TRACE, 'The specification gives a value or an error for every input, so a panic or a missing return is never accepted. ' + NOTE)

prop('C14', 'Invalid transform instructions are rejected when the transformer is made',
     'Making a transformer fails exactly if the schema has, for its identifier, an unknown operation or method, missing, unknown or ill-formed arguments, or a default that does not fit an object or array: never later during a transform, and never for sections of other identifiers.',
     ['configurations'], 'Every schema with one or more invalid instructions at any depth and every valid one.',
     'A few invalid arguments are tested at the top level.',
     TR, [('init of operations', 'transform/operations.go'), ('newTransformer walk', 'transform/transformer.go')], TRACE, NOTE)

prop('C15', 'Objects are assembled from source, default and their fields',
     'An object field starts from the object its instructions give, else from its default, and declared fields are set in it; a field with a value in the output always comes from its own rule. '
     'An object none of whose fields has a value is left out.',
     ['inputs', 'configurations'], 'Every combination of object transforms, defaults and fields at all depths, with missing and wrong-typed sources.',
     'Object transforms are tested with one example.',
     TR, [('object assembly', 'transform/instance.go objectTransformer.transform')], TRACE, NOTE)

JS = ['jsonschema/schema.go', 'jsonschema/reference.go', 'jsonschema/cache.go']
STR = 'TLA+ reference semantics of schema files, TLC trace validation of real loads'
SNOTE = ('Every recorded call of the real library is judged by TLC with the specification; what was not generated was not seen. '
         'Trusted: TLC and the tagging of JSON values.')

prop('C16', 'The cache builds each value once and keeps no failures',
     'For every key at most one build runs at a time and none after one has succeeded; all loads of the key return the value of that build. '
     'A failed build is reported to those waiting for it and built anew by later loads, and a build of one key never blocks loads of others.',
     ['schedules', 'histories'], 'Every interleaving of loads of any keys by any number of goroutines, with builders that fail, are slow or load other keys.',
     'The package has no test of the cache; duplicated builds or remembered failures need concurrent callers at particular points.',
     ['jsonschema/cache.go'], [('single flight around lookup, build and store', 'jsonschema/cache.go Cache.Load')],
     'TLA+ model of the single-flight algorithm refining an abstract cache, both checked by TLC; TLC validation of recorded concurrent histories',
     'The algorithm is checked exhaustively for 3 processes on one key and 2 on two keys, with liveness; the code is bound to the abstract cache by its recorded histories, under the schedules the Go scheduler takes. ' + SNOTE,
     state=[{'name': 'data, flight', 'meaning': 'stored values and the builds in progress', 'where': 'jsonschema/cache.go Cache'}])

prop('C17', 'Loading a schema gives the same result whatever else is loaded',
     'Loads of schemas, from any number of goroutines, in any order and among loads of other files, oneOf types and flattenings that share files, each give what the load gives alone in a fresh process. '
     'The same arguments give the same schema object from then on, a failed load is not remembered, and loads never deadlock or race.',
     ['schedules', 'histories', 'configurations'], 'Every history of loads by any number of goroutines of any files that refer to one another.',
     'Tests load one file after the other, and the caches shared between them are hit in one order only.',
     JS, [('schemaCache and its key', 'jsonschema/schema.go schemaFromFile'), ('validatorCache', 'jsonschema/validator.go loadSchema'), ('merged properties kept apart', 'jsonschema/schema.go mergeProperties')],
     'TLA+ specification of loading as a function with memory, TLC validation of recorded concurrent histories, also in a -race build',
     'Each result is compared with the same load in a process of its own, so the oracle is the code itself, isolated. ' + SNOTE)

prop('C18', 'References are replaced by what they refer to',
     'Every $ref of a schema, within the file, into other files relative to it or fetched by http, is replaced by the referenced schema, itself fully resolved, marked with where it came from, and overridden by the keys next to the reference. '
     'References to nothing and references that lead back to themselves are errors, never endless.',
     ['inputs', 'configurations'], 'Every set of files and every graph of references between them.',
     'Tests have a few files with one or two levels of references; order of resolution, siblings, escapes and cycles combine freely.',
     JS, [('dereference and findRefs', 'jsonschema/reference.go'), ('checkCircular', 'jsonschema/reference.go'), ('expanded files', 'jsonschema/schema.go Schema.expanded')], STR, SNOTE +
     ' References from fetched documents, JSON pointer escapes and lists of lists are not generated.')

prop('C19', 'allOf and the chosen oneOf are merged into the schema',
     'A loaded schema has the properties, required names and items of its file, then of its allOf elements (all when flattening, else only if it has no properties of its own), then of the oneOf elements whose reference has the wanted base name; what comes first wins. '
     'SchemaTypes reports exactly the references and properties of the file itself.',
     ['inputs', 'configurations'], 'Every schema with allOf and oneOf, nested over files, for every oneOf type, flattened or not.',
     'Tests cover single levels of allOf and oneOf with disjoint properties.',
     JS, [('merge loops', 'jsonschema/schema.go schemaFromFile'), ('mergeProperties', 'jsonschema/schema.go'), ('SchemaTypes', 'jsonschema/schema.go')], STR, SNOTE)

prop('C20', 'Walks visit every instance once, parents first',
     'Walk and WalkRaw call back once for every instance below the root with its JSON path and content, an instance always before those within it. '
     'The first error, of the callback or because an object or array says nothing of its content, ends the walk and is returned.',
     ['inputs', 'schedules'], 'Every schema, every order of properties, every callback that fails at some instance.',
     'Tests walk a few schemas and collect paths in maps, which hides repetitions and order.',
     ['jsonschema/walk.go'], [('Walk, walkInstance', 'jsonschema/walk.go'), ('WalkRaw, walkRaw', 'jsonschema/walk.go')],
     'TLA+ specification of walks, TLC trace validation of recorded visits', SNOTE)

prop('C21', 'FieldType tells the type and nullability of any field',
     'FieldType returns the one type a field declares, as string or as list with or without null, and whether it may be null; it fails exactly for fields without such a type and for unions of several types.',
     ['inputs'], 'Every JSON object as schema of a field.',
     'Four cases are tested.',
     ['jsonschema/schema.go'], [('FieldType', 'jsonschema/schema.go')],
     'TLA+ definition of field types, TLC trace validation', SNOTE)

prop('C22', 'Validation accepts exactly the documents valid for the file',
     'The validator of a loaded schema, and one made for the file, accept a document exactly if it is valid for the schema as written in the file with its references, whatever oneOf type or flattening it was loaded with; '
     'otherwise, and for text which is no JSON, they return false and an error.',
     ['inputs', 'configurations'], 'Every schema with references and combinations and every document.',
     'Tests validate two documents.',
     ['jsonschema/validator.go', 'jsonschema/schema.go'], [('Validate', 'jsonschema/validator.go'), ('path as the key of the cache', 'jsonschema/validator.go loadSchema')],
     'TLA+ validity semantics, TLC trace validation of real validations', SNOTE + ' Keywords: type, enum, lengths, minimum, maximum, format date-time, items and their number, properties, required, additionalProperties, allOf, anyOf, oneOf, $ref.')

GEN = ['generate/generate.go', 'generate/struct.go']
GTR = 'TLA+ specification of what is generated, TLC trace validation of real output'
GNOTE = ('Real output is parsed (go/parser, a GraphQL parser of the harness) and judged by TLC with the specification; what was not generated was not seen. '
         'Trusted: TLC and those parsers.')

prop('C23', 'Generated Go structs declare exactly what the schemas describe',
     'For every schema and set of options, each generated Go file declares a struct with one field for every property that is stored, with the Go type, pointer, embedding, JSON tag and description that its type, nullability, requirement and the options call for, and nothing else. '
     'The files are those for the schema and each allOf or oneOf reference; schemas that cannot be expressed are reported as errors, never generated wrongly.',
     ['inputs', 'configurations'], 'Every schema with references, nesting, allOf, oneOf, descriptions and names of all kinds, and every combination of build arguments.',
     'The tests compare whole files for a handful of schemas and options; names, descriptions, embedding and nullability combine freely.',
     GEN, [('walkFunc, addField and goType', 'generate/struct.go'), ('which files are generated', 'generate/generate.go BuildStructsWithArgs'), ('embedding', 'generate/struct.go newGeneratedGoFile')],
     GTR, GNOTE + ' Lists of lists are errors.')

prop('C24', 'Generation is deterministic',
     'Generating from the same schemas with the same arguments writes the same files with the same content, in any process, however often and over what was there before, after and at the same time as other builds, and however the schema files are written (order of keys, white space, where they are); '
     'or it fails each time. The schema files and the arguments stay as they are.',
     ['inputs', 'configurations', 'schedules'], 'Every schema and set of arguments, and every history of builds in a process.',
     'The tests generate each schema once.',
     GEN + ['generate/graphql.go', 'generate/avro.go', 'generate/avro_helpers.go'],
     [('BuildStructsWithArgs', 'generate/generate.go'), ('sorted fields', 'generate/struct.go'), ('sorted types', 'generate/graphql.go')],
     'TLA+ specification of a function over histories of calls, TLC trace validation against builds in processes of their own',
     'What a build in a fresh process writes is the value every other build has to have. Builds with Avro or message pack run one at a time, as the libraries they use have global state.')

PTR = 'TLA+ specification of what documents keep, TLC trace validation of round trips through compiled generated code'
prop('C25', 'Generated Go structs compile and keep the documents of their schema',
     'The Go package generated for any schema and options compiles, and unmarshalling a JSON document of the schema into a generated struct and marshalling it again keeps every value: of stored fields nothing changes, '
     'required fields are all there, and only fields which are not required may lose an empty value.',
     ['inputs', 'configurations'], 'Every schema with references, nesting, allOf and oneOf, every combination of build arguments, and every document of the schema.',
     'Tests compare generated text; none compiles it or uses it for a document of an arbitrary schema.',
     GEN, [('goType, JSON tags', 'generate/struct.go'), ('embedding', 'generate/struct.go newGeneratedGoFile'), ('BuildStructsWithArgs', 'generate/generate.go')],
     PTR, GNOTE + ' Known finding: properties which several structs embedded at one depth have.')

prop('C26', 'Avro container files hold what the struct holds',
     'Where structs can be generated Avro can too, except for lists of maps and different objects of one name, which are errors, and its code compiles. The Avro schema of each struct is valid and has its fields, with their types, optional where they are, and descriptions. '
     'A container file written for documents is read back by any reader by its own schema as one record each, in order, with all values, the write time in milliseconds and whether it is a delete.',
     ['inputs', 'configurations'], 'Every schema with references, nesting, allOf and oneOf in which no two embedded structs share a property, every combination of build arguments, every document of the schema and every write time.',
     'The tests compare the Avro schemas of two structs and run the generated tests of empty structs.',
     GEN + ['generate/avro.go', 'generate/avro_helpers.go', 'generate/avro_template.go'],
     [('buildAvroSchemaFile', 'generate/avro.go'), ('buildAvroSerializationFunctions', 'generate/avro.go'), ('avroFieldMapper', 'generate/avro_helpers.go'), ('WriteAvroCF, WriteAvroDeletedCF', 'generate/avro_template.go')],
     'TLA+ specification of Avro schemas and records, TLC trace validation of what an independent reader finds in the container files',
     GNOTE + ' The reader is part of the harness. Not covered: values that may be null.')

prop('C27', 'Bulk writing of Avro keeps all items and reports the failure',
     'A bulk writer writes every item it is sent, in order, as one valid container file which is complete when the channel of errors is closed; that happens once the channel of items is closed or writing fails, whether or not anyone reads the errors, and nothing is left running. '
     'The first failure to write is sent once on that channel, nothing is written after it, and a nil item is a delete.',
     ['schedules', 'fault_sequences', 'inputs'], 'Every interleaving of a sender, the writer and a reader of the errors, every point at which the underlying writer fails or is slow, and any number of bulk writers at a time.',
     'The generated example is compiled but not run; failures and slow writers are not tested at all.',
     ['generate/avro_template.go'], [('BulkAvroWriter', 'generate/avro_template.go')],
     'TLA+ model of the bulk writer, checked by TLC with liveness; TLC validation of recorded runs of the generated code against it',
     'The model is checked for 4 items, a failure at any point and both ways to send; the generated code is bound to it by recorded runs under the schedules the Go scheduler takes.',
     state=[{'name': 'sent, taken, written, errors', 'meaning': 'items sent, taken from the channel and in the file, and the channel of errors', 'where': 'generate/avro_template.go BulkAvroWriter'}])

prop('C28', 'Generated GraphQL describes the same data as the Go structs',
     'For every schema and options with types of their own, the generated GraphQL parses and has a type for every object, an interface for what oneOf types share and types that implement it with all its fields; '
     'each field has the GraphQL type, nullability, arguments, directives and description that the schema and the options call for, and every list its total.',
     ['inputs', 'configurations'], 'Every schema with references, allOf, oneOf, hydrations and targets, and every combination of build arguments.',
     'The tests compare whole files for a few schemas; merged fields, targets, names and descriptions combine freely.',
     ['generate/graphql.go', 'generate/generate.go'], [('buildGraphQLFile', 'generate/graphql.go'), ('addField, graphqlType', 'generate/graphql.go'), ('graphqlComment', 'generate/graphql.go')],
     GTR, GNOTE)

prop('C30', 'Generated message pack code keeps what the struct holds',
     'With message pack enabled the generated package compiles, and a struct encoded with its generated methods, as bytes appended to a buffer or as a stream, decodes to the same JSON document apart from empty lists and maps, '
     'within the size the struct announces and leaving what follows untouched.',
     ['inputs', 'configurations'], 'Every schema with references, nesting, allOf and oneOf, every combination of build arguments, and every document of the schema.',
     'The tests generate message pack code for one schema.',
     GEN, [('GenerateMessagePack', 'generate/generate.go'), ('types of fields', 'generate/struct.go')],
     PTR, GNOTE + ' Times are in UTC, as message pack keeps no zone.')

prop('C29', 'Times are converted to Avro exactly',
     'The conversions of times give the whole milliseconds since 1970, rounded down, of any time in any zone and year; nothing for lists without times, 0 for a missing one, and lists keep the order of the times that are there.',
     ['inputs'], 'Every time and list of times, including unset and missing ones.',
     'No test has times other than now.',
     ['generate/avro_helpers.go'], [('AvroTime, AvroTimeSlice, AvroOptionalTime, AvroOptionalTimeSlice', 'generate/avro_helpers.go')],
     'TLA+ definition by civil dates, TLC trace validation', 'Trusted: TLC and the civil fields of the time package.')

prop('C31', 'The command does what its command line says',
     'The command generates, for every command line, exactly the files the library generates for the build arguments the command line stands for, in the place it names, and its exit status tells success from failure. '
     'A command line without a meaning, by its options, their values or what is missing, fails with an explanation and writes nothing. BuildStructs and BuildStructsRename build as BuildStructsWithArgs does with the arguments they stand for.',
     ['inputs', 'configurations'], 'Every command line: order, repetition and notation of options, maps given at once or one by one, relative and absolute paths, and mistakes; every schema.',
     'The command has no tests at all.',
     ['main.go', 'generate/generate.go'], [('main', 'main.go'), ('mapFlags.Set', 'main.go'), ('BuildStructs, BuildStructsRename', 'generate/generate.go')],
     'TLA+ specification of the meaning of a command line, TLC trace validation of the real command against the real library',
     'The specification reads the command line, the library called in another process with the arguments it finds is the oracle for the files. What was not generated was not seen. Trusted: TLC.')
