"""writes KNOWN_FINDINGS.txt"""
import os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FIXED = """
P16 f0ef09b list.insert(i, v) inserted the items of v instead of v
P16 23bc31d list.pop(i) with i < -len popped an item instead of raising IndexError
P16 e2322d3 list.extend left part of the items behind when a later one was rejected; x.extend(x) did not end
P16 03f651c list.index(v, 0, end) raised IndexError for an end past the end
P17 0c749ab constructing or updating a record dict from another record dict, or from what is no collection, dropped everything silently
P17 4f51857 dict.update left part of the values behind when a later one was rejected
P06 aa259ee composing a property type from traits mixed in another type than the one selected
P06 36c4d60 Property(...) whose composed type is no sub-class of the class called was returned without __init__ having run
P06 0baf21b ambiguous property arguments raised NameError/TypeError instead of AmbiguousPropertyTraitArg
P06 ad0044c property types made with make_property_type() and defaults of other traits could not be declared
P06 8204300 composing an explicitly unsafe collection property selected again without its arguments and made it safe
P06 b4aa435 the type composed for a set of traits depended on the properties declared before
P03 5af67a2 deleting an unset property raised KeyError instead of AttributeError (P05 as well)
P03 665331d a read-only property combined with a safe one could be assigned to
P04 0b23d6f a lazy property with a default such as 0 or '' raised AttributeError
P05 848d5f5 a mutable v1_none raised AttributeError (exc.NoneMutable did not exist)
P05 9fc22b4 slot_is_empty of v1 properties raised TypeError
P07 7636df3 hash() of record lists and dicts, and of records with empty ones, raised TypeError
P07 2bf5c34 the identity of a record dict ignored its keys and depended on their order (P19 as well)
P07 7f8f844 a slot with several possible types was identified by the first of the types whatever the value was
P08 073a3e4 a pickled or copied list or dict with properties of its own lost them
P08 9fa8951 copy.copy() of a record list or dict shared its container with the original
P09 cb52d63 repr() of a JsonRecordDict raised AttributeError
P09 1a5dfaa str() of a record raised TypeError where a value cannot be part of a key
P10 0ab1f45 the empty placeholder of a type lacked what the type inherits
P10 edcbabf slicing the empty placeholder of a type without items returned something
P10 9fa612b iterating over an empty placeholder did not end
P10 f264cd2 the empty accessor of a property replaced a declared attribute of the same name
P11 2ce3dc6 records within other records were read from JSON by their attribute names instead of their JSON names
P11 723236b from_json() of list and dict types that are not JSON-aware failed
P12 ccd757c constructing a record from JSON raised KeyError where two properties have the same JSON key
P13 8dc007d FieldSelector.get on a missing dict key raised KeyError, and the messages of other failures did not name the component
P13 700a291 FieldSelector.delete of what is not there succeeded silently or raised KeyError
P13 7a1b05f a wildcard raised TypeError for dicts, and put/post on it lost the value
P13 d020467 a selector for a property of a list collection was taken for an index
P13 675732f FieldSelector.post raised where nothing is there yet but could be created
P14 df572d8 FieldSelector([0.0]) and other falsy values were accepted as components
P14 c0442e1 equal field selectors had different hashes
P14 6c48fb7 startswith() with something longer than the selector was True, and raised IndexError for an empty one
P14 16d1919 a path with a negative index, an empty key, a line break or a backslash in a key did not parse back to the selector
P14 f5f59ba the path of an empty MultiFieldSelector was that of one selecting everything
P15 c9fafed mfs[item] raised KeyError for an item that its wildcard matches (P21 as well)
P15 f958cd8 MultiFieldSelector.patch and .delete with several items of a list worked on shifted items
P15 a4ce9c4 MultiFieldSelector.get lost values that are None and raised for indices there are none of
P15 d7c79f5 MultiFieldSelector.patch under a wildcard copied only one of the items
P20 8bdc051 a compare_as function was called with the internal mark for 'not set' when items were identified
P21 c1a5050 items were taken for equal when a compare_filter selects only some of their fields
P19 a003ab2 diff raised AttributeError for values that are frozen sets
P19 6977964 diff raised TypeError for lists and dicts of values that are not hashable
P21 440ef51 a compare_filter did not restrict the comparison of simple lists and dicts to the items selected: filter ["words", 0] reported a difference at words[1]
P22 c4f36ed a dict passed where a list is declared gave every item the index 0
P22 3bd98d3 visiting what is no collection raised AttributeError instead of VisitorUnpackError
P22 7e23608 visiting a dict as a record type visited nothing and gave {}
P22 4adb573 apply_empty_slots with unset record slots raised, or recursed without end
P22 e7c8ce6 a visit_filter did not restrict the visit of simple lists and dicts: apply was called for items not selected
P22 c3718d3 casting with a visit_filter passed records through of which no field is selected
P24 6ef0aa4 attributes of auto JSON records could not be set or deleted, and missing ones raised KeyError: hasattr and copy.deepcopy failed
P24 b7b5447 auto JSON records refused lists of which the first item is an object and another one is not
P24 e9607f3 auto JSON records wrote {"a_b": 1} back as {"aB": 1}, and of {"aB": 1, "a_b": 2} kept only one
P24 f2fa29a auto JSON records wrote {} for the objects within
P23 6cab6ba datetimes with microseconds could not be read back from JSON without dateutil
P23 1606a25 without dateutil "2012-1-1" and "2012-11" were read as 2020-12-11
P23 aea6e12 StringProperty turned anything into a string, None into "None", where documented to refuse
P02 cef5f50 a bound method, class or built-in function as default= failed at declaration or when called (default=dict, time.time, random.random, a record class); as compare_as= as well
P02 c5899da an unknown name in primary_key raised KeyError and not PropertiesNotKnown
P16 73abefc an item of the wrong type was stored when a collection's own coerceitem returned it
P16 0ebc9bf a bad item for a collection of several item types raised AttributeError while formatting the error
P16 031c352 two collection classes of one name got the same generic type for items of one type: ListProperty(of=X, coll=Mine) made lists of another class
P26 bb75f55 repr of an exception with a tuple for a positional argument raised TypeError
P26 dff9a5b FieldSelectorAttributeError.name was None and not the name (AttributeError has a name attribute of its own, since Python 3.10)
P11 74915eb objects with a json_data method with a keyword-only argument other than extraneous could not be converted
P11 a5bbf3a a slot was left out silently when its json_out function, or the json_data method of anything in it, raised AttributeError
P16 1982135 index() and remove() of a tuple that is not in the list raised TypeError and not ValueError
P16 dc1a9fe list + what is no list raised AttributeError and not TypeError
P15 7d23d91 deleting [-1] and [-2] of a list of three with a multi field selector deleted the first and the last item
P11 2a48a27 an object's own json_data method was not used among unknown JSON keys, and unknown JSON keys of records there were dropped
P12 248232b unknown JSON keys were kept in an order that depends on the hash seed (and with it which of two keys of one snake-case name an AutoJsonRecord renames)
"""
KNOWN = """
"""
out = ["# Defects of hearsaycorp/normalize found by the checks.",
       "# fixed: property=<id> <commit> <what failed>",
       "# KNOWN-FINDING: property=<id> harness=<name> "
       "match=/<regex on message + inputs>/ <what fails>"]
for line in FIXED.strip().splitlines():
    out.append("fixed: property=" + line)
out.extend(KNOWN.strip().splitlines())
with open(os.path.join(ROOT, "KNOWN_FINDINGS.txt"), "w") as f:
    f.write("\n".join(out) + "\n")
print(len(out) - 3)
