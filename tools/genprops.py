import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],
        observe_at=observe or [],hook_needed=None)))
PR="normalize/property/__init__.py"; PM="normalize/property/meta.py"; PT="normalize/property/types.py"
PC="normalize/property/coll.py"; PJ="normalize/property/json.py"; R="normalize/record/__init__.py"
RM="normalize/record/meta.py"; RJ="normalize/record/json.py"; C="normalize/coll.py"; D="normalize/diff.py"
S="normalize/selector.py"; V="normalize/visitor.py"; I="normalize/identity.py"; E="normalize/empty.py"; ST="normalize/subtype.py"
p("P01","Type-safe slots only ever hold valid values",
 "Through any sequence of construction, assignment and deletion, a slot of a type-safe property that is set holds an instance of its declared type that its check function accepted. A value already of the declared type is stored as passed; any other value is handed to the coerce function (the declared type by default) and the result is stored if it has the declared type, and the check function sees the value that is stored. An assignment that is rejected raises a coercion error (an exception from the coerce function included) and leaves the record exactly as it was.",
 ["inputs","histories","configurations"],"all property declarations over {isa, isa tuple, coerce, check, required, default}, all values (right type, coercible, not coercible, failing the check) and all operation sequences up to the stated length",
 "tests assign a handful of literals to a handful of declarations; the rule must hold for every value, every combination of isa/coerce/check and every history",
 [PR,R],[("type_safe_value",PR),("SafeProperty.__set__/__delete__",PR),("Property.init_prop",PR)],["record attributes","raised exceptions"])
p("P02","Record construction fills exactly the declared slots",
 "Building a record from keyword arguments and from one mapping with the same items gives equal records in which every passed slot holds the (coerced) value passed, every slot not passed holds its default if it has one (a callable default - a function, method, class or anything else that can be called without arguments or with the record - being called anew for each record), and every other slot is unset. A missing required slot, a name that is no property of the class, or a combination of positional argument and keywords (or several positional arguments) is rejected with the documented exception, and the mapping passed in is not changed. Subclasses inherit the properties of their bases and an overriding declaration replaces the inherited one. A class whose primary key names no property of it, that uses a reserved name, or inherits one property name from two bases is refused with the documented exception when it is defined, and so is a default function that requires more arguments.",
 ["inputs","configurations"],"all subsets of passed slots, all values, record classes with every mix of required/default/callable default/typed/inherited/overridden properties",
 "tests build a few fixed records; subsets of passed/omitted arguments and inherited declarations multiply beyond what they sample",
 [R,RM,PR],[("Record.__init__/init_props/init_eager",R),("RecordMeta",RM),("Property.init_prop/get_default",PR)])
p("P03","Required slots stay present and read-only slots never change",
 "A required property of a constructed record is set, and is never None unless its declared type admits None: deleting it is refused and changes nothing, and so is assigning None, unless the declared coercion turns None into a value of the type, which is then stored. A property declared read-only (alone or combined with any other trait: typed, lazy, collection, JSON, default) keeps its value for the life of the record: every assignment and every deletion raises ReadOnlyAttributeError and changes nothing. Other safe properties can be deleted, after which they are unset; deleting a slot that is not set raises AttributeError (one with a v1 none value excepted).",
 ["inputs","histories","configurations"],"all trait combinations containing required or ro and all operation sequences up to the stated length with arbitrary values",
 "tests try one assignment on one or two read-only declarations; the guarantee spans every composed property type",
 [PR,PM,PC,PJ],[("ROProperty.__set__/__delete__",PR),("SafeProperty.__delete__",PR),("trait composition",PM)])
p("P04","Lazy properties are computed once, on demand, and type-checked",
 "A lazy property that was not given a value calls its default function only when first read, at most once per record while it succeeds, and every later read returns the same object; a lazy property that was given or assigned a value never calls it. The computed value goes through the same coercion and check as an assigned one; if the function or the check fails, nothing is stored and the next read tries again. Computation in one record never affects another, and operations that only inspect other slots do not trigger it.",
 ["inputs","histories","configurations"],"all lazy property kinds (plain, safe, ro, typed) and all sequences of read/assign/delete on two records, with arbitrary and failing default functions",
 "tests read a lazy property once or twice; the at-most-once rule is over histories",
 [PR],[("LazyProperty.__get__",PR),("LazySafeProperty / ROLazyProperty",PR)])
p("P05","Properties with a v1 none value never raise on read",
 "Reading a property declared with v1_none (or with a falsy hashable default, which upgrades it) never raises AttributeError: an unset slot reads as that none value, a set slot as the value held. Assigning None or the none value when the declared type does not admit it clears the slot, whatever its previous state; any other invalid value (one that only the check function refuses included) is rejected without change. With both a none value and a default, unset means the one and not passed the other. The other facilities (equality, repr, JSON output, diff) work on records with such properties in every state.",
 ["inputs","histories","configurations"],"all v1_none values and declared types, all histories of assignment, deletion and read up to the stated length",
 "tests cover two declarations with literal assignments on set slots",
 [PR,PM],[("V1Property",PR),("looks_like_v1_none",PM)])
p("P06","Property() picks the property type its arguments imply",
 "Declaring Property with any set of understood arguments and named traits gives a property object having exactly the traits those imply: every requested trait, every trait implied by a distinguishing argument, safe assignment whenever a type, check or required flag is given and the property is neither read-only nor explicitly unsafe. The outcome depends only on the set of arguments and traits, not on argument order or on which property types were composed earlier. Unknown arguments, ambiguous or impossible combinations and positional arguments are rejected with the documented errors.",
 ["configurations","histories"],"all subsets of the declaration arguments and of the trait list, in all orders and declaration histories up to the stated bound",
 "tests exercise about ten fixed combinations; the composition algorithm must work for every subset and in every order of creation",
 [PM,PR],[("has",PM),("create_property_type_from_traits",PM),("MetaProperty.__new__",PM)])
p("P07","Record equality is value equality and agrees with hash",
 "Two records of the same class are equal exactly when every non-extraneous property is equal or unset on both, and != is its negation; the relation is reflexive, symmetric and transitive, and records of different classes are unequal; collections are equal exactly when they have the same item type and equal contents. Records and collections that compare equal have equal hashes, so that they behave as one element of a set or dict. A record's identity (record_id) is made of its primary key when one is declared (unset parts counting as None), and of all its compared values otherwise, so equal records always have equal identities.",
 ["inputs","configurations"],"all pairs and triples of records of the given schemas (flat, nested, with collections, primary keys, extraneous properties) with arbitrary values and unset slots",
 "tests compare a few literal records; an equivalence relation and hash agreement quantify over all pairs and triples",
 [R,I,C],[("Record.__eq__/__hash__/__pk__",R),("record_id",I),("Collection.__eq__",C)])
p("P08","Pickling and copying reproduce records and collections",
 "Pickling (every protocol), copy.copy and copy.deepcopy of any record, record list or record dict give an object of the same class that compares equal, with the same slots set and unset, extraneous slots included. A deep or pickled copy shares no record or collection with the original, so changing one never shows in the other; a copy made with copy.copy has its own slots and, for a collection, its own container, sharing only the values in them; the original is unchanged by being copied. Copies have fully working properties: type checking and read-only protection still apply.",
 ["inputs","configurations"],"all records of the given schemas (nested, collections, lazy, read-only, generic list/dict types, JSON records) with arbitrary values, all protocols",
 "tests pickle two fixed records with one protocol",
 [R,C,RJ,PC],[("Record.__getnewargs__/__getstate__",R),("_Generic.__reduce__/_GenericPickler",PC+" / "+C)])
p("P09","repr of a record evaluates back to an equal record",
 "For any record, list collection or dict collection built from values whose own repr is evaluable, evaluating its repr in a namespace with the record classes gives an equal object of the same class (slots with a default being set: deleting one does not show). The repr shows exactly the set slots, by attribute name, and computing it changes nothing. str and repr never raise on a validly constructed object.",
 ["inputs","configurations"],"all records and collections of the given schemas, with arbitrary leaf values and set/unset slots",
 "tests compare a few literal reprs",
 [R,C,RJ],[("Record.__repr__/__str__",R),("Collection.__repr__",C),("JsonRecord.__repr__",RJ)])
p("P10","Empty-value access through prop0 never fails and never invents data",
 "For a property foo, reading foo0 gives the same object as foo when the slot is set, and otherwise a placeholder that is falsy, equal to no value, iterates over nothing, and may be dereferenced through any chain of attributes and items permitted by the declared type. Following such a chain from a record gives the value at the end exactly when the corresponding plain chain would, and an empty placeholder otherwise. It never modifies the record, and names or items the declared type cannot have raise AttributeError or the documented lookup errors.",
 ["inputs","configurations"],"all records of nested schemas with any subset of slots set, all access chains up to the stated length",
 "tests follow three chains",
 [E,PR],[("placeholder / EmptyVal",E),("EmptyAuxProp",PR)])
p("P11","JSON output read back gives the same record",
 "For any record, JSON record, or list or dict of records whose values are representable, reading the output of JSON conversion back into the same class gives an equal object with the same slots set, under every declared json_name, json_in/json_out pair, nesting and collection type; integers too large for JSON doubles are written as text and read back as the same integer. The output consists only of dicts with string keys, lists and scalars, contains exactly the set slots that are to be written, each under its JSON name, and shares no mutable structure with the record. An object's own json_data method is used wherever the object occurs, and told whether extraneous values are wanted if it has an argument of that name; an error raised by it or by a json_out function is raised, and not taken for a slot that is not set. Text, bytes and bytearray input mean the same as the decoded structure, and neither direction modifies its argument.",
 ["inputs","configurations"],"all records of the given schemas with arbitrary values (unbounded integers, short strings), all subsets of set slots, all JSON naming options",
 "tests round-trip a few literal structures; naming, nesting, emptiness and magnitude combinations are not sampled",
 [RJ,PJ,V],[("to_json / _json_data",RJ),("from_json / json_to_initkwargs",RJ),("JsonProperty",PJ)])
p("P12","JSON input: unknown keys, hidden keys and error locations",
 "When a JSON structure is read into a record class, each known key sets exactly its property, keys that belong to no property are kept on a JSON record, in their order, and written out again without overriding any known key, and they never set a property; keys of properties hidden from JSON input are treated as unknown; properties given as keyword arguments next to the structure win over its keys. If an element is invalid the whole read fails with a normalize error; when the element lies inside a nested record or JSON collection this is a JsonConversionError whose path leads into the input, to the invalid element or to the record or collection holding it. Nothing of the caller's structure is modified.",
 ["inputs","configurations"],"all JSON structures of the given shapes: any subset of known/unknown/hidden keys, any one element invalid at any depth",
 "tests place one error at two fixed positions and one unknown key",
 [RJ,PJ],[("json_to_initkwargs",RJ),("from_json / from_json list/dict",RJ),("JsonConversionError",  "normalize/exc.py")])
p("P13","Field selectors obey the get/put laws",
 "On any data structure of records, lists and dicts and any field selector: get after a successful put or post returns the value put (after coercion), put changes nothing outside the selected location, delete removes the selected item or value and nothing else, and get_or_none equals get where get succeeds and is None where it fails. A wildcard stands for every item of a list or value of a dict: get gives a list with None for the items that lack the field, and get and delete fail only if all of the items do. Post creates the missing records and collections on the way, appends at the end of a list, and changes nothing else. Where an attribute, index or key on the way is not there, a FieldSelectorException subclass is raised (a ValueError for a post that would leave a gap in a list), a value that a slot or collection does not accept raises its coercion, read-only or required error, and after a failed get, put or delete (without wildcards) the structure is unchanged.",
 ["inputs","configurations"],"all selectors up to the stated length over attribute names, list indices (negative and out of range included), dict keys and wildcards, over all structures of the given schemas",
 "tests read and write about a dozen fixed paths",
 [S],[("FieldSelector.get/put/post/delete/get_or_none",S)])
p("P14","Selector paths and selector algebra",
 "Formatting a field selector or multi field selector as a path and parsing that path gives back an equal selector (for a multi field selector: one of equal members), for every attribute name, integer index (negative included), string key (empty, quotes, backslashes, brackets, newlines included) and wildcard. Equal selectors have equal hashes; selectors are ordered like the sequences of their components, and comparing selectors whose first differing components are of different types raises TypeError; concatenation, slicing, indexing, startswith and length behave as for the sequence of components. Components of a type that is not allowed are refused at construction.",
 ["inputs"],"all selectors up to the stated length whose string components range over all strings up to the stated length",
 "tests check a few paths without special characters",
 [S],[("FieldSelector.path/from_path",S),("MultiFieldSelector.path/from_path",S),("FieldSelector.__init__/__lt__/__eq__/__hash__",S)])
p("P15","Multi field selectors select exactly their fields",
 "A multi field selector built from a set of selectors contains exactly the locations at or below one of them (wildcards covering every item), and membership, subscripting, iteration and path form agree with that. Applied to a record, get returns a copy holding exactly the selected values, sharing no record or collection with the original; patch copies exactly the selected values of one object into another, removes those fields that the first one lacks, and changes nothing else; delete removes exactly the selected values, or, if some are missing and force is not given, raises and changes nothing. Order and duplication of the selectors given do not matter.",
 ["inputs","configurations"],"all sets of up to the stated number of selectors over the given schema and all record values with any subset of slots set",
 "tests use a few hand-written selectors on one record",
 [S],[("MultiFieldSelector",S)])
p("P16","Record lists behave like type-checked Python lists",
 "Any sequence of list operations on a record list (construction, append, extend, insert, item and slice get/set/delete, pop, remove, index, count, reverse, sort, +, +=, in, iteration, len, ==) gives the same contents, results and exception kinds as the same operations on a plain list, apart from coercion of items. Every item is always an instance of the declared item type (or of one of them): values are coerced on the way in, and an operation given a value that cannot be coerced, or whose coercion gives what is not of that type, raises a coercion error and leaves the list as it was. Two lists never share storage unless they are the same object. The collection type made for items of a type is of the declared kind of collection and of the declared item type, one for each; two declarations which could not be told apart by name are refused. A list or dict property holds collections of the kind and concrete type it was declared with, and a declaration that contradicts itself is refused.",
 ["inputs","histories"],"all operation sequences up to the stated length from lists up to the stated length, with all indices and slice bounds in range and out of range and arbitrary item values",
 "tests make a dozen calls with in-range literal indices",
 [C,PC],[("ListCollection",C),("Collection.coerce_value / itertuples",C),("ListProperty",PC)])
p("P17","Record dicts behave like type-checked Python dicts",
 "Any sequence of dict operations on a record dict (construction from a mapping, an iterator of pairs, or another record dict; item get, set and delete; pop, popitem, update from a mapping, pairs or keywords; clear, in, iteration, keys, values, items, len, ==) gives the same contents, order, results and exception kinds as the same operations on a plain dict, apart from coercion of values. Every value is always an instance of the declared item type (or of one of them), and an operation given a value that cannot be coerced, or whose coercion gives what is not of that type, raises a coercion error and leaves the dict as it was. A sequence, or an iterator of what are no pairs, has the positions of its items for keys. Input that is not a collection of entries is rejected rather than silently dropped.",
 ["inputs","histories"],"all operation sequences up to the stated length with arbitrary keys (equal and different) and values",
 "tests make a few calls with literal keys",
 [C,PC],[("DictCollection",C),("DictProperty",PC)])
p("P18","Comparing records finds exactly the differences",
 "Diffing two records of one class yields nothing when their compared values are equal (list and dict values being compared as multisets of their items), and otherwise yields for every compared slot that differs a difference located at or below that slot: ADDED when only the second has it, REMOVED when only the first has it, MODIFIED when both do and the values differ. The base and other selectors of each difference resolve in the respective record to the differing values; nothing is reported twice and no unchanged slot is reported (with unchanged=True, each leaf slot that both have exactly once as UNCHANGED). Records of different classes are a TypeError. Swapping the two records swaps ADDED with REMOVED and base with other, and changes nothing else; neither record is modified.",
 ["inputs","configurations"],"all pairs of records of the given schemas (flat, nested, optional, extraneous, compare_as) with arbitrary values and unset slots, under each diff option",
 "tests diff a fixed pair of large fixtures",
 [D],[("compare_record_iter",D),("Diff",D),("DiffOptions",D)])
p("P19","Comparing collections accounts for every item",
 "Diffing two lists or dicts, of records or of plain values, accounts for every item of both sides exactly once: it is matched with an equal (or same-identity) item of the other side, or is reported ADDED, REMOVED or within one MODIFIED pair, so that nothing is reported exactly when both sides hold the same items, as multisets. Every selector reported leads to the item or value it describes; items with the same (single-column) primary key are compared with each other, and without fuzzy_match only those are reported as modified; with it, the most similar items are paired first. With moved=True, items found under another index or key are reported MOVED; with unchanged=True every item found unchanged on both sides is reported UNCHANGED (or MOVED) once; ignore_empty_items drops exactly the empty records; recurse compares dicts key by key.",
 ["inputs","configurations"],"all pairs of collections up to the stated length, with and without primary keys, duplicates included, arbitrary values, under each option",
 "tests diff fixed lists with few items and almost no duplicates",
 [D,I],[("compare_collection_iter / compare_list_iter / compare_dict_iter",D),("record_id",I)])
p("P20","Text and emptiness options mean what they say",
 "Under ignore_ws, ignore_case and unicode_normal, two strings compare as equal whenever they differ only in white space runs (and leading or trailing white space), letter case or Unicode composition respectively, and text normalisation is idempotent; with an option off, such differences are reported. With ignore_empty_slots, None and empty strings (after clean-up), and records and collections holding nothing else, are the same as unset, and no other value is. compare_as and item clean-up functions are applied to both sides before comparison.",
 ["inputs","configurations"],"all pairs of strings up to the stated length over the stated alphabet (white space, cased letters, combining marks) and all option combinations",
 "tests try two or three literal strings",
 [D],[("DiffOptions.normalize_text/whitespace/case/unf",D),("value_is_empty",D)])
p("P21","compare_filter restricts a diff to the selected fields and nothing else",
 "Diffing with a compare_filter yields exactly the differences that a diff restricted to the selected fields has: a difference in a field (or an item of a simple list or dict) that is not selected is never reported and does not affect which items match, and every difference in a selected field is reported as it would be without the filter. Items are matched by their primary key if all of it is selected and by the selected fields otherwise. Extraneous fields are compared only on request, filter or not. An empty filter is no filter. Filters given as lists of paths and as multi field selectors mean the same.",
 ["inputs","configurations"],"all pairs of records of the given schemas within the stated sizes and all filters of up to the stated number of selectors",
 "tests use a few fixed filters on a fixed pair",
 [D,S,I],[("DiffOptions.is_filtered / id_args",D),("MultiFieldSelector",S)])
p("P22","Visitors see every slot once and casting round-trips",
 "Visiting a record calls the visitor's apply exactly once for every slot (and every collection item) of the data that the filter selects, with the value there, as the declared type of its slot, and a field selector that leads to it, and gathers the results in the same shape: results that are None or empty are left out as the options say, unselected record items remain as empty placeholders, and collections with properties of their own become a dict with their items under 'values'. Casting the visited structure back gives an equal record; reflecting on a type visits every property of it and of the types within. Filters restrict the visit to exactly the selected fields and items, and the visited objects are not modified.",
 ["inputs","configurations"],"all records of the given schemas with any subset of slots set and arbitrary values, all filters up to the stated size",
 "tests visit a fixed fixture with a fixed visitor",
 [V],[("VisitorPattern.visit/cast/reflect",V),("Visitor",V)])
p("P23","Subtypes and ready-made property types admit exactly their values",
 "A value is an instance of a subtype exactly when it is an instance of the base type and satisfies the where condition, and using a subtype as a property type (with or without coerce) lets through exactly such values. The ready-made property types (int, long, number, string, unicode, date, datetime and their collections) store a value of the named type equal to the one passed or to its standard conversion, and reject anything that has no such conversion; strings given for string types are stored as they are, and what is no string is refused. Without dateutil, dates and datetimes are read from YYYY-MM-DD, YYYYMMDD and YY-MM-DD, optionally followed by a time HH:MM[:SS[.ffffff]][Z], as the day and time they denote, and other strings are refused; writing one to JSON and reading it back gives the same value. Dates and datetimes are not confused with each other.",
 ["inputs","configurations"],"all values of the stated kinds (unbounded integers, numeric and other strings, dates) for each property type and all where conditions of the stated forms",
 "tests pass a few literals to each type",
 [ST,PT],[("subtype",ST),("typed properties",PT)])
p("P24","Auto JSON records convert keys reversibly and nest automatically",
 "A record built from arbitrary JSON by AutoJsonRecord gives access to every key of the input as an attribute under its snake-case name (NCAutoJsonRecord: under its own name), objects inside becoming records of the same kind and lists of objects lists of them, and writing it back to JSON gives the original structure, key by key, also where two keys have the same snake-case name or a key is in snake case already. Declared properties keep their own names, conversions and checks. Setting and deleting attributes is reflected in the JSON written. A name that is not in the input raises AttributeError, so that hasattr, copying and pickling work; records do not share their keys with each other or with the input.",
 ["inputs","histories"],"all JSON structures up to the stated depth, all keys over the stated alphabet up to the stated length, and all sequences of attribute changes up to the stated length",
 "tests convert two literal documents",
 [RJ],[("AutoJsonRecord / NCAutoJsonRecord",RJ)])
p("P25","Diffs are values: their text, types and copies say what they hold",
 "The text of a Diff gives the types compared, the number of differences, and, grouped by kind, the paths of exactly their locations (the base location for what was removed or is unchanged, the other one for what was added, and both for what was modified and has different ones); the text of a single difference gives its kind and its location, the deeper one if one is within the other. A kind of difference may be given as the enumeration's value, by name or by number, and nothing else is accepted; a difference always has a kind and two locations. diff, diff_iter, the methods of records, and options given as an object or as keywords (but not both) report the same differences in the same order. A Diff can be compared, hashed, copied and pickled like any record list, and records the type names of what was compared.",
 ["inputs","configurations"],"all locations of up to two components with arbitrary indexes and keys, all multisets of kinds up to the stated number, all names and numbers of kinds",
 "tests compare the text of a few fixed diffs; the text must be right for any combination of kinds and locations",
 [D],[("Diff.__str__, DiffInfo.__str__",D),("diff / diff_iter",D),("Record.diff",R)])
p("P26","Errors belong to the documented families and say what was refused",
 "An error the library raises on a value, an item, a document or a name it refuses has a readable text and the documented base classes (NormalizeError always; TypeError for values that cannot be coerced and what is no collection or record, ValueError for values that fail a check or are missing though required, AttributeError for read-only slots and selectors of unknown names, KeyError for selectors of missing items, VisitorException for visits and casts). It carries what was refused: the value passed, the property or the collection and its item type, the coerced value if that was to blame, the original exception of a coerce function, the location for JSON input and visits (the containing record, for a bad value of a property), the name for unknown names; its text shows the value, the property's full name or the collection's name, the type wanted and the reason. An attribute the exception was not given is an AttributeError. A user's own exception declared with a format string formats its arguments by keyword or position, gives them as attributes or items, shows them in its repr, and names what is missing if an argument is.",
 ["inputs","configurations"],"arbitrary values (texts with quotes, braces and backslashes, numbers, containers), names and positions, for every way a value enters the given records, collections and documents",
 "tests match a few error texts; the text and contents must be right for any value, also one whose text looks like a format",
 ["normalize/exc.py",PR,C,RJ,S],[("StringFormatException","normalize/exc.py"),("Property.type_safe_value",PR),("Collection.coerce_value",C),("json_to_initkwargs",RJ),("FieldSelector.get/put/post/delete",S)])
with open("/verif/properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P), max(len(x['title']) for x in P))
