import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    a=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech])
    if state: a["state"]=[dict(name=n,meaning=m,where=w) for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=None
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,anchors=a))
B="src/builder.rs"; A="src/builder/affordance.rs"; D="src/builder/data_schema.rs"; H="src/builder/human_readable_info.rs"; T="src/thing.rs"
p("P01","Unsatisfiable schema limits are refused everywhere, satisfiable ones accepted",
 "Building a Thing fails when any data schema it contains has limits no value can satisfy or that make no sense: a lower limit above the upper one (or equal to it when either is exclusive) for numbers, integers, string lengths and array lengths, a limit of a number that is not a number, or a multiple-of of a number that is not above zero; the error says which of these it is. This holds wherever the schema stands (property, action input and output, event subscription, data, data response and cancellation, URI variables of the Thing and of every affordance, schema definitions) and however deep it is nested in array items, tuples, object properties and alternatives. A Thing whose limits are all satisfiable is never refused for them.",
 ["inputs"],"every pair of limits (inclusive or exclusive) and multiple-of over all doubles, all 64-bit integers and all 32-bit lengths, at every position and nesting",
 "the tests try a handful of constants at a few positions (min 5 max 4 and the like); the claim is over all numbers, including NaN and infinities, all four combinations of inclusive and exclusive, and the product of positions and nestings",
 [D,B,A],[("iterative check of a schema and its children",D+" check_data_schema_subtype, is_range_empty, check_one_of_schema"),("calls of the check for each position",B+" ThingBuilder::build, try_build_affordance"),("check of an affordance's URI variables",A+" CheckableInteractionAffordanceBuilder::check")],
 observe=["result of ThingBuilder::build"])
p("P02","Every security reference of a built Thing names a definition, defined once",
 "Building a Thing succeeds only if every security name used by a form (of the Thing or of any affordance) or by a combined security scheme is among the security definitions, and no two definitions share a name; otherwise it fails with an error naming an offending name. Names that are all defined are never refused. The names the Thing itself requires are exactly those marked as required, in order.",
 ["inputs","configurations"],"all names (symbolic strings), any of the forms, either name of a form, any combination of definitions within the bounds",
 "the tests use one missing name in one form; which of several names, forms and affordances is the undefined one is not sampled, nor names that differ from a defined one in a single byte",
 [B,A],[("security definitions and combos checked",B+" ThingBuilder::build"),("security of a Thing's forms",B+" build_form_from_builder"),("security of affordances' forms",A+" check_form_builders")],
 observe=["result of ThingBuilder::build"])
p("P03","Every schema an additional response refers to is declared",
 "Building a Thing succeeds only if every data schema named by an additional response of any form, of the Thing or of any affordance, is among the schema definitions; otherwise it fails with an error carrying the missing name. Declared names are never refused.",
 ["inputs","configurations"],"all names (symbolic strings), any form, any of several additional responses, with and without schema definitions",
 "one test with one missing name in one Thing form; affordance forms were not tested at all (and were not checked)",
 [B,A],[("Thing forms",B+" build_form_from_builder"),("affordance forms",A+" check_form_builders")],observe=["result of ThingBuilder::build"])
p("P04","A form only carries operations that belong where it stands",
 "Building a Thing fails when a form of the Thing has no explicit operation or one that is not about all or multiple affordances, or when a form of a property, action or event carries an operation that belongs to another kind; the error names the context and a wrong operation. Forms whose operations all belong are accepted and keep their operations in order, and an affordance's form may leave them out.",
 ["inputs","configurations"],"all eighteen operations, alone and in lists of up to three, in each of the four contexts and in any of several forms and affordances",
 "the test walks some operations one at a time; lists in which only a later operation is wrong, or only a later form, are not sampled",
 [B,A],[("Thing forms",B+" build_form_from_builder"),("allowed operations by kind",B+" ThingBuilder::build (closures passed to try_build_affordance)"),("affordance forms",A+" check_form_builders")],observe=["result of ThingBuilder::build"])
p("P05","Affordance names are unique within their kind and no affordance is lost",
 "Building a Thing fails when two properties, two actions or two events share a name, with an error that tells the kind and the name. Otherwise the Thing holds exactly the affordances declared, each under its own name with its own contents; the same name may be used once in each kind.",
 ["inputs"],"all names and contents (symbolic strings), up to four affordances of a kind, declared in any order",
 "no test exercises a collision of affordance names at all",
 [B],[("names entered into a map, occupied entries refused",B+" try_build_affordance")],observe=["result of ThingBuilder::build"])
p("P06","Malformed language tags are refused wherever text is translated",
 "Building a Thing fails with an error carrying the tag when any translated title or description (of the Thing, an affordance, a data schema at any position and depth, a URI variable, a schema definition or a security scheme) or the language of a link uses a malformed language tag. Well-formed tags are accepted, and each translation is found under its tag, letter case aside.",
 ["inputs"],"every tag of up to five bytes, at every position that takes one",
 "two tests with one malformed tag each, at two of some fifty positions",
 [B,D,A,H],[("tags parsed on build",B+" MultiLanguageBuilder::build"),("links",B+" TryFrom<UncheckedLink> for Link"),("schemas",D+" TryFrom<UncheckedDataSchema> for DataSchema"),("affordances",A+" TryFrom<UncheckedInteractionAffordance>, BuildableAffordance::build"),("security schemes",B+" TryFrom<UncheckedSecurityScheme>")],observe=["result of ThingBuilder::build"])
p("P07","Sizes are only accepted on icon links and links keep what they are given",
 "Building a Thing fails when a link has sizes but its relation is not exactly `icon`, and with no other relation or combination of fields. A link that is accepted has exactly the target, type, relation, anchor, sizes and languages it was given, in the order the links were added.",
 ["inputs"],"all relations of up to five bytes, every subset of the fields, any of several links",
 "one test for one wrong relation; relations that are near misses (prefix, other case, empty) and position in the list are not sampled",
 [B],[("conversion of links",B+" TryFrom<UncheckedLink> for Link")],observe=["result of ThingBuilder::build"])
p("P08","URI variables are never arrays or objects",
 "Building a Thing fails when the schema of a URI variable, of the Thing or of any property, action or event, is an array or an object, whichever way that schema was made and whichever of several variables it is. A URI variable of any other type is accepted and kept under its name.",
 ["inputs","configurations"],"every schema type and builder route, either of two variables, all contents, at the Thing and each kind of affordance",
 "two tests, each with a single variable of one wrong type",
 [B,D,A],[("test of the variables' types",D+" uri_variables_contains_arrays_objects"),("Thing",B+" ThingBuilder::build"),("affordances",A+" CheckableInteractionAffordanceBuilder::check")],observe=["result of ThingBuilder::build"])
p("P09","A built Thing holds exactly what the builder was given, where it was given",
 "When a build succeeds, every field of the Thing, its links, forms, affordances, data schemas and their parts has exactly the value last given for it through the builder (lists have all values given, in order), and every field that was not given is absent or has its default. No call on the builder changes anything else.",
 ["inputs","programs"],"all contents (symbolic), every field alone, every pair, all, and all but any one or two of the fields of each builder",
 "the tests set few fields with fixed contents and compare once; swapped or dropped fields under particular combinations are not seen",
 [B,A,D,H],[("builder methods and the conversions to the finished types",B+", "+A+", "+D+", "+H)],observe=["fields of the built Thing"])
p("P10","Writing a description to JSON and reading it back changes nothing",
 "Any Thing, affordance, form, link, data schema, security scheme or part of them that is written to JSON, as a value or as text, is read back as an equal value: the same fields present, with the same contents, numbers to the last bit, texts symbol by symbol, dates to the nanosecond.",
 ["inputs"],"all field contents (symbolic), every field alone, every pair, all, and all but any one or two, every kind of schema and security scheme; finite numbers",
 "the tests round-trip a few fixed documents; empty lists, null constants, boundary numbers, and combinations of fields are not among them",
 [T,"src/hlist.rs"],[("derived and hand-written (de)serializers",T)],observe=["serde_json::to_value / to_string and from_value / from_str"])
p("P11","What is written uses the vocabulary of the specification, and each key once",
 "Every member of a description is written under the key and in the form the Thing Description 1.1 vocabulary gives it, members that are absent are not written (in particular not as null), nothing else is written, and no object has a key twice. Operations are shown, written and read under the same names, and dates are written in RFC 3339 form.",
 ["inputs"],"as P10, against an independent writer in the harness",
 "the tests compare a few fixed documents; a wrong key shows only in the combination that writes it",
 [T],[("serde attributes and hand-written serializers",T)],observe=["serde_json::to_value / to_string"])
p("P12","Documents may use every short form the specification allows",
 "A document is read to the same value whether a list of one is written as a list or as its single member, whether members that equal their default are written or left out, whatever the order of members, and whatever unknown members it carries besides. A security scheme that says no more than its kind gets the defaults of the specification.",
 ["inputs"],"the documents of P10, each as the specification writes it, with single members bare, with bare members in lists, without defaults, with unknown members, with members reversed",
 "few tests read a form the writer does not produce",
 [T],[("one-or-many and default attributes",T)],observe=["serde_json::from_value / from_str"])
p("P13","Reading never panics, insists on mandatory members and is stable",
 "Reading any text or JSON value never panics; a document without a mandatory member, or with an operation outside the specification's vocabulary, is refused; terms of closed vocabularies are recognised exactly. Whatever is accepted can be written again, and reading that gives the same value.",
 ["inputs"],"every member of every object with a value of any JSON shape and symbolic contents, every text of a few bytes, every term of the lengths the vocabularies use",
 "malformed input is hardly tested; the fuzz target needs someone to run it",
 [T],[("derived and hand-written deserializers",T)],observe=["serde_json::from_value / from_slice"])
p("P14","Extensions keep their place and contents; the list of extensions obeys its laws",
 "Values given for extensions, at each of the places that can be extended, are found at that place of the built Thing in the order given, are written as members of that object next to the standard ones and nowhere else, and are read back equal. The list that carries them gives back what was put in: appending, splitting at either end, reversing and borrowing keep all elements and their order.",
 ["inputs","programs"],"two extensions with symbolic contents at all ten places at once, list lengths up to four with symbolic elements",
 "one test with fixed values; borrowing and splitting are tested for single shapes",
 ["src/hlist.rs","src/extend.rs",B,A,D,T],[("heterogeneous lists","src/hlist.rs"),("extension traits","src/extend.rs"),("flattened extension fields",T),("ext methods",B+", "+A+", "+D)],observe=["fields of the built Thing, its JSON"])
p("P15","Limits are ordered consistently, within and across lower and upper",
 "Comparing two lower limits, two upper limits, or a lower with an upper one gives the order of the sets of values they admit: by value first, exclusive stricter than inclusive at the same value, and no order where the kinds point different ways. Swapping the sides reverses the result, equality and the comparison operators agree with it, order is transitive, and limits that are not a number are told as such and compare to nothing.",
 ["inputs"],"all pairs and triples of limits over 64-bit integers, bytes and all doubles",
 "the tests compare some constants; NaN, signed zeros and infinities in each role are not covered",
 [T],[("PartialOrd and PartialEq of Minimum and Maximum",T)],observe=["partial_cmp, ==, <, is_nan"])
p("P16","Protocol binding terms are written and read as their vocabularies say",
 "Every CoAP, HTTP and MQTT binding value is written with the vocabulary's prefixed keys and terms, leaves out what is absent, and is read back equal; numbers and terms outside a vocabulary are refused.",
 ["inputs"],"every value of each numeric field and term, every small or large subset of fields, symbolic texts",
 "fixed documents only; the numeric code tables and optional fields are sampled",
 ["src/protocol/coap.rs","src/protocol/http.rs","src/protocol/mqtt.rs"],[("serde attributes","src/protocol")],observe=["serde_json::to_value / from_value"])
p("P17","Equality is field by field and copies are equal",
 "Two values of any description type are equal exactly when all their fields are equal: a value that differs from another in one field's presence or contents is unequal to it whichever field that is, equality is symmetric and reflexive for values without NaN, and a clone is equal to its original.",
 ["inputs"],"two values of each type with independent symbolic contents that differ in any one field",
 "equality is used by the tests but not itself tested: an equality that ignores a field makes every comparison that uses it pass",
 [T],[("PartialEq, Clone (derived and written by hand)",T)],observe=["==, clone"])
p("P18","A schema is read-only or write-only as asked, never both",
 "A data schema made with the builder is read-only exactly if it was asked to be or is a constant, write-only exactly if it was asked to be, and never both. This holds for every kind of schema, at every position, whatever is called before and after.",
 ["inputs","programs"],"every schema kind, mode and position, with symbolic contents and every order of the calls involved",
 "the tests check read-only and write-only for single kinds",
 [D,A],[("read_only, write_only, constant and the conversions",D)],observe=["fields of the built Thing"])
p("P19","Builder calls that mean the same give the same Thing",
 "The order of independent builder calls makes no difference, the value-taking and the closure-taking form of a call are the same, defaults given explicitly equal defaults left out, and a schema built on its own converts to the same schema as within a Thing.",
 ["inputs","programs"],"all orders of up to four calls per builder, symbolic contents",
 "each test uses one order and one form",
 [B,A,D],[("builder methods",B+", "+A+", "+D)],observe=["fields of the built Thing"])
p("P20","Security schemes are defined as configured and under the right name",
 "A security scheme given to the builder is found in the definitions under the name it was given, or else the name of its kind, with exactly the kind, location, parameters, descriptions, types and proxy it was configured with, defaults of the specification for the rest, and is required by the Thing exactly if marked so. The calls can come in any order.",
 ["inputs","programs"],"every kind of scheme, every subset of its parameters, symbolic contents, with and without name and requirement, several schemes in one Thing",
 "one fixed configuration per scheme",
 [B],[("security scheme builders",B+" mod security"),("names and requirements",B+" ThingBuilder::security")],observe=["security and securityDefinitions of the built Thing"])
p("P21","What the builder builds is a valid document that reads back as the same Thing",
 "Every Thing the builder accepts can be written as JSON; the document has every mandatory member, every security name and schema name in it refers to a definition in it, every form has operations of its place only, no schema has an empty range or is both read-only and write-only, and no URI variable is an array or object. Reading that document, as a value or as text, gives the same Thing.",
 ["inputs","programs"],"all sequences of builder calls that are accepted, all contents, faults that may or may not be there",
 "a few Things are built in the tests, others are written, none goes all the way from the builder to the document and back with every part present",
 [B,T,A,D],[("ThingBuilder::build",B),("Serialize and Deserialize of Thing",T)],observe=["JSON of the built Thing","the Thing read back"])
p("P22","A built Thing has the Thing Description 1.1 context first and once",
 "The context of every Thing the builder makes starts with the Thing Description 1.1 context and contains it once; it is a single text when nothing else was added, and otherwise the list of everything added in order, texts as texts and maps as objects with all their names.",
 ["inputs"],"up to three additions, texts and maps, all contents, the 1.1 context itself among them",
 "three tests with fixed contexts; duplicates in other positions are not sampled",
 [B],[("context and context_map",B)],observe=["context of the built Thing"])
p("P23","Nothing depends on chance",
 "The same builder calls give the same Thing, or are refused, every time, and the same document is read as the same Thing, whatever the seeds and the order of hash maps. Of two texts given for one language, in whatever case, the last one counts.",
 ["inputs","schedules"],"all contents and all iteration orders of the maps involved",
 "a test runs with one seed at a time; a result that depends on it fails now and then or never",
 [B,A,D,T],[("MultiLanguageBuilder, and every map the builder fills or goes through",B)],observe=["fields of the built Thing","JSON"])
open("/verif/properties.jsonl","w").write("".join(json.dumps(x)+"\n" for x in P))
import jsonschema
s=json.load(open("/root/.vp/PROPERTIES.schema.json"))
for x in P:
    jsonschema.validate(x,s)
    assert x["statement"].count(". ")+1<=3,(x["id"],x["statement"].count(". "))
print(len(P))
