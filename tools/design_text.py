COST = dict(P01="15 s", P02="10 s", P03="10 s", P04="8 s", P05="8 s",
            P06="60 s", P07="65 s", P08="10 s", P09="8 s", P10="10 s",
            P11="60 s", P12="31 s", P13="12 s", P14="38 s", P15="29 s",
            P16="60 s", P17="25 s", P18="20 s", P19="80 s", P20="55 s",
            P21="80-120 s", P22="16 s", P23="50 s", P24="10 s",
            P25="50 s", P26="9 s")

HEAD = r'''# Design

normalize is a Python library of typed record classes: properties (type
safety, coercion, laziness, read-only, ...), record lists and dicts, selectors
into nested records, JSON conversion, comparison (diff) and visitors.  The 26
properties in `properties.jsonl` cover all of these parts.  All of them are
decided by one technique, and none is listed as not applicable.

(This file is written by `tools/gendesign.py` from `tools/design_text.py`, the
check modules, `KNOWN_FINDINGS.txt` and the metadata of `seeded/`.)

## The technique: symbolic execution of the real Python source

There is no packaged engine that decides properties of object-oriented Python
over records, descriptors and metaclasses (CrossHair realises its inputs in
most of this library: descriptors, `isinstance` against classes chosen at run
time, `json`, `re`), so `sx/` is one, built for this code base:

1. **The encoding is the source itself.**  `sx/instrument.py` is an import hook
   which, on every run, reads `normalize/**/*.py` from /repo's working tree and
   rewrites the syntax tree before it is compiled: every call, subscript,
   comparison, `in`, `%`, f-string and so on goes through a dispatcher in
   `sx/models.py`; everything else is CPython's own semantics.  (A handful of
   pure-Python modules of the standard library, e.g. `collections`,
   `_pydatetime` and `functools.total_ordering`, are handled in the same way.)
   Nothing of /repo is modified, and no hooks are needed there.  Evidence lists
   the functions of normalize entered symbolically (`functions_encoded`).
2. **Inputs are symbolic values.**  `sx/proxies.py` has integers (mathematical,
   as Python's are), booleans, strings (a bounded list of symbolic code points,
   any Unicode scalar value), dates; records, lists and dicts are real objects
   which hold such values.  The *shape* (which slots are set, how many items,
   which operations in which order, which declaration of a property) is a
   symbolic choice variable as well.
3. **Every branch whose condition mentions a symbolic value is a decision.**  z3
   says which outcomes are feasible under the path condition; infeasible ones
   are pruned, feasible ones are queued (as prefixes of decisions) and explored
   until none is left.  `exhaustive: true` in the evidence means that the queue
   ran empty: every value of every input within the bounds lies on a path that
   was executed.  If it does not run empty within the budget, z3 says
   `unknown`, or the code does something with a symbolic value that the engine
   has no model of, the check exits with 2 and claims nothing.
4. **Assertions are decided by the solver** over all values of a path: is the
   path condition with the negated assertion satisfiable?  Where the assertion
   is literally a condition of the path, or both sides are the same term, no
   further query is needed; evidence counts these separately
   (`assertions_decided_by_path_condition`).  Harnesses whose inputs are only
   shapes and opaque values moved around unchanged therefore show few queries:
   their paths are decided by the choice variables, and equality of the values
   by identity of the terms.
5. **Counterexamples are replayed on the real code** before they are reported:
   a fresh process imports the *unmodified* normalize with the ordinary Python
   interpreter of the project (/opt/venv), executes the same harness with the
   concrete values of the solver's model (`sx/concrete.py`), and only if it
   fails there as well a `VIOLATION` line is printed with the path of the
   replay file (`bin/replay FILE` runs it again).  One that does not reproduce
   is a defect of the engine and ends the run with exit code 2, not with a
   violation.
6. **The engine is validated on every run**: for a sample of the paths explored
   (every 7th by default; `validated` in the evidence) a model of the path
   condition is run concretely on the real code as well, and what the harness
   observed along the path (outcomes, exceptions, values) must agree.  A
   disagreement is exit code 2.  With `SX_STRICT=1`, which is how the checks are
   developed, every path on which a symbolic value was given up
   ("one-witness") is reported, too.
7. **Vacuity** is guarded by witnesses: every harness names tags that have to be
   reached by at least one feasible path (`witness=[...]`); a harness that no
   longer reaches one of them ends with exit code 2, except where the code under
   test no longer can, when the assertions have already failed.

Values that no model covers (a C function given a proxy) are *realised*: one
concrete value is taken, the path is marked `one-witness`, and the other values
of the path are explored only where a decision separates them.  Evidence says
how many paths that concerns, and where (`realised`).  On the unchanged tree it
is none or nearly none, so that "for every value" is what it says.

Messages of exceptions are abstracted to opaque text while they are formatted
(unless a property is about the text, as for error locations), as formatting
would otherwise fork on every digit.

### What the words "bounded" and "held" mean here

Per harness: the number of slots, items, operations and nesting levels and the
length of strings are bounded as stated below; integers are unbounded unless a
range is given; strings contain any characters unless an alphabet is given.
Within these bounds a check that exits with 0 has decided the property for every
value.  Nothing is claimed outside of them.  The quick tier is what is run on
every change; the thorough tier has more items, longer strings and longer
histories and takes minutes to (P16, P19, P21) most of an hour.

### Trusted

z3; the engine (`sx/`, 3.9k lines) and its models of built-ins, to the extent
that replaying sampled paths does not validate them; the reference models in the
harnesses, which are written from the documentation: plain Python lists and
dicts for the record collections, a plain comparison (`checks/difflib_ref.py`)
for diff, plain structures for JSON and visitors.

### Commands

`bin/check P16 [--tier quick|thorough] [--only REGEX] [--jobs N] [--budget S]
[-v] [--keep-going]`, `bin/replay FILE`, `bin/setup` (imports everything once).
Exit 0: held; 1: with a `VIOLATION property=<id> replay=<path>` line; 2: no
answer.  Every run rewrites `evidence/<id>.json`.

`checks/menu.py` is shared: one property of any of some thirty declarations (every
kind of type, default, laziness, safety and collection, extraneous or not, with or
without a JSON name, on Record or JsonRecord), so that what is claimed of
properties in general is decided for each of them (P08, P09, P11, P18 and
P22).

## The properties
'''

HOW = {
"P01": "Declarations, values and operation sequences are symbolic; the oracle "
       "is a few lines that say what `type_safe_value` should do, with the "
       "coerce and check functions logging what they see.",
"P06": "For every combination of the arguments of `Property()` the traits it "
       "must have are stated in a table; the type composed, its behaviour on "
       "reading, writing and deleting, and independence of the declarations "
       "made before are checked.",
"P16": "Differential: each operation on a ListCollection in an arbitrary "
       "state against a Python list of validated items. `single_op` is one "
       "step from an arbitrary state with up to the stated number of items; "
       "`history` composes steps.",
"P17": "Differential: each operation on a DictCollection against a Python "
       "dict.",
"P18": "Differential against `checks/difflib_ref.py`, a plain recursive "
       "statement of what differs, as a multiset of (kind, path, path).",
"P19": "Lists, dicts and sets of up to three items on both sides. What is "
       "checked are the accounting laws: every item is reported once as kept, "
       "moved, modified, added or removed; matching by primary key or by "
       "value; nothing is reported for equal collections; the number of "
       "differences is no greater than comparing everything anew.",
"P21": "Differential: comparing with a filter must report exactly those of "
       "the differences of the reference that lie at selected fields.",
"P22": "A plain recursive statement of which values are visited at which "
       "location, in terms of declared properties, filter and options.",
}

TAIL = r'''
## Defects found

The checks reported the 77 distinct defects listed in `KNOWN_FINDINGS.txt`; each
was confirmed by its replay on the unmodified code, then repaired by a `fix:`
commit in /repo.  There is no open finding.  "as well" in the list means that
more than one property reported it.

## Planted bugs

`seeded/` has changes that pass the stable tests and break one property; the
sections above name them, and the check which catches each of them (all are
caught).  Those which were missed at first, and what was done about it:

- `eq-unset-none`, `pickle-drops-none`: values that are None were not among the
  values of the slots; they are everywhere now.
- `lazy-truthy-cache`: lazy properties whose value is None or of any type.
- `hash-extraneous`, `eq-coll-subclass`: hashes and comparisons of records with
  properties of any kind (`checks/menu.py`), and comparisons with objects that
  are no instances of the class.
- `list-index-before-start`, `v1-set-none`: start and end of `index()` from
  below `-len`; None given to slots with a none value.
- `visit-values-key`, `visit-union-exact`: dicts with a key "values", slots of
  several record types holding sub-classes of them.
- `diff-unchanged-index`, `diff-fuzzy-match-count`: unchanged items of plain
  lists under another index; which pairs are the most similar.
- `json-kwargs-lose`: keywords next to a structure, those of collections too.
- `coll-eq-len`, `eq-coll-subclass`: collections of other item types.
- `post-last-negative`: negative indices in every position.

Besides these, mutants of every file of normalize were generated automatically
(operators exchanged, conditions negated or forced, statements and arguments
removed) and those which the stable tests do not notice were given to the checks;
see "Mutation campaign" below.

## Mutation campaign

About 2,400 mutants were generated of all files of normalize; the ones that fail
a stable test or are the same by a look at the bytecode were dropped, and the
rest was given to the checks of the properties anchored in the file (quick
tier).  What was missed was looked at one by one:

- Equivalent ones, most of them: a condition that only saves time, a default
  that is always passed, a value that is computed again later.
- Behaviour no property claims: the wording of repr of internal objects, warnings
  and their stack levels, the deprecated `id_args` protocol with hand-made
  functions, unions as item types of visited and compared collections
  (documented as unsupported), a property object shared by two classes.
- Gaps, closed since: deleting the binding of properties (P26 names them),
  accessors over inherited properties (P10), "values" among the keys of what is
  cast, sub-classes in unions, visits by class (P22), kinds of
  collections declared (P16 `declared_kind`, `concrete_type`), the methods of
  JSON properties (P11 `one_slot`), identities with partly filtered keys (P21).

Three sets of refactorings that keep the behaviour (helpers extracted, loops
rewritten as comprehensions and back, conditions inverted, early returns, locals
renamed) were applied to every file to see that the checks stay quiet; they do.

## False alarms and what became of them

- P19 `time`: a limit on the time a comparison of equal lists may take was a
  limit on wall-clock time, which failed on a loaded machine; it is processor
  time now, with a wide margin.
- P18: "no differences if and only if equal" is claimed only where all slots
  compared are part of equality (`extraneous` ones are not), and not for texts
  which differ in white space only: those are compared as P20 says.
- P18/P19 `duck_type`: an unset list against an empty one is not claimed.
- P22: casting back what a visit returned needs types that can be told from
  plain structures; slots of several record types are documented to need a
  custom function and are outside.
- P11: records in slots of several types without `json_in` cannot be read back;
  outside.
- The engine: symbolic keys of dicts, `%` formatting with widths, hashing of
  constants against symbolic values and comparisons of sets were first realised
  to one value, then modelled; none of them gives up a value silently any more.

## Limits

- dateutil is not installed here, and hidden from the code under test where it
  is; P23 decides the parser in `property/types.py` which is used without it.
- Floating-point numbers are concrete: a list of representative ones, including
  NaN and the infinities where they matter.
- Threads, locales, other Python versions: nothing is claimed.
- Which of several equally good matches is reported for lists with duplicates
  (P19) is not claimed, only that the accounting is right.
- Regular expressions in normalize are interpreted symbolically by
  `sx/regex.py`; a pattern with a construct it has no model of ends the check
  with exit code 2.
'''
