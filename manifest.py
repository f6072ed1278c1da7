#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json
TECH = "contract-based deductive verification of the Go code (govc: SSA -> verification conditions -> z3/cvc5)"
NOTE = {
 "C01": "Merge and the functions it calls are proved to meet this for all class lists, rules and cache contents: every name of the result is a name of the list, and the result is the names joined with single spaces. Assumed: rules have a selector and the cache holds results of Merge for the same rules (what NewMerger and AddRules establish), the documented contracts of strings, regexp, slices, sort and sync, no two calls at once change the rules. Documented limits: loading rules concurrently with merging is out of scope.",
 "C02": "Merge and the functions it calls are proved to meet this for all class lists, rules and cache contents: every name without a rule is in the result. Assumed: rules have a selector and the cache holds results of Merge for the same rules (what NewMerger and AddRules establish), the documented contracts of strings, regexp, slices, sort and sync, no two calls at once change the rules. Documented limits: loading rules concurrently with merging is out of scope.",
 "C03": "Merge and the functions it calls are proved to meet this for all class lists, rules and cache contents: the last setter of each non-custom property in each circumstance is in the result. Assumed: rules have a selector and the cache holds results of Merge for the same rules (what NewMerger and AddRules establish), the documented contracts of strings, regexp, slices, sort and sync, no two calls at once change the rules. Documented limits: loading rules concurrently with merging is out of scope.",
 "C04": "Merge and the functions it calls are proved to meet this for all class lists, rules and cache contents: every name in the result has one of the reasons to be kept (no rule, last setter of a property, last !important setter, last setter of a custom property in use). Assumed: rules have a selector and the cache holds results of Merge for the same rules (what NewMerger and AddRules establish), the documented contracts of strings, regexp, slices, sort and sync, no two calls at once change the rules. Documented limits: loading rules concurrently with merging is out of scope.",
 "C05": "Merge and the functions it calls are proved to meet this for all class lists, rules and cache contents: the last !important setter of each property and circumstance is in the result. Assumed: rules have a selector and the cache holds results of Merge for the same rules (what NewMerger and AddRules establish), the documented contracts of strings, regexp, slices, sort and sync, no two calls at once change the rules. Documented limits: loading rules concurrently with merging is out of scope.",
 "C06": "Merge and the functions it calls are proved to meet this for all class lists, rules and cache contents: custom properties in use (least fixpoint of var() uses of effective declarations) keep their last setter and nothing else keeps a class that only sets custom properties. Assumed: rules have a selector and the cache holds results of Merge for the same rules (what NewMerger and AddRules establish), the documented contracts of strings, regexp, slices, sort and sync, no two calls at once change the rules. Documented limits: loading rules concurrently with merging is out of scope.",
 "C07": "Merge and the functions it calls are proved to meet this for all class lists, rules and cache contents: names are unique and ordered by last occurrence (or sorted, without order keeping); from this contract it is proved by lemmas that merging a result again gives the same result, with order keeping. Assumed: rules have a selector and the cache holds results of Merge for the same rules (what NewMerger and AddRules establish), the documented contracts of strings, regexp, slices, sort and sync, no two calls at once change the rules. Documented limits: loading rules concurrently with merging is out of scope.",
 "C08": "Merge and the functions it calls are proved to meet this for all class lists, rules and cache contents: the result meets a specification that depends on the list, the rules and the ordering mode only, and by lemmas two results that meet it are the same string. Assumed: rules have a selector and the cache holds results of Merge for the same rules (what NewMerger and AddRules establish), the documented contracts of strings, regexp, slices, sort and sync, no two calls at once change the rules. Documented limits: loading rules concurrently with merging is out of scope.",
 "C09": "Merge and the functions it calls are proved to meet this for all class lists, rules and cache contents: cached results meet the same specification as computed ones, and only such results are stored. Assumed: rules have a selector and the cache holds results of Merge for the same rules (what NewMerger and AddRules establish), the documented contracts of strings, regexp, slices, sort and sync, no two calls at once change the rules. Documented limits: loading rules concurrently with merging is out of scope.",
 "C10": "Merge and the functions it calls are proved to meet this for all class lists, rules and cache contents: Merge writes nothing but the contents of the cache (frame conditions of every write in every function it calls). Assumed: rules have a selector and the cache holds results of Merge for the same rules (what NewMerger and AddRules establish), the documented contracts of strings, regexp, slices, sort and sync, no two calls at once change the rules. Documented limits: loading rules concurrently with merging is out of scope.",
 "C11": "Proved: ExtractRules gives every rule a selector; walk finds exactly the class names of a selector; AddRules files under each of them the last rule naming it, keeps the others, and changes nothing when it returns an error. each rule that ExtractRules gives has the conditions of the @media and @supports blocks around a style rule of the sheet, none inside another at-rule or style rule; a declaration has the unescaped name and the normalized text of its event. That ExtractRules gives every such rule, with all its selectors and declarations in order, is checked by random runs against an oracle within bounds, not proved. Assumed: the contract of the CSS tokenizer (github.com/tdewolff/parse): its blocks nest while there is no syntax error; io, bytes, strings.",
 "C12": "Proved: propModifier gives no modifier for a plain class, the pseudo-classes in order and without repetitions then the pseudo-element for a class with these, and else the text of the selector that WithoutClass makes, of which the structure is specified part by part; by lemmas the same set gives the same modifier and, assuming that texts of pseudo-classes can be told apart when joined, the same modifier comes from the same set only; Merge keeps the last setter per property, condition and modifier and keeps nothing else, so that a class is kept if no later one applies in its circumstance. ExtractRules and parseAtRuleName are proved to put the conditions of the @media and @supports blocks around a rule together from the outside in, unaltered. Assumed: the blocks that the CSS tokenizer (github.com/tdewolff/parse) reports nest while there is no syntax error.",
 "C13": "Proved: ExtractRules, AddRules, the selector parser and every function they call in this repository terminate and never index out of range, dereference nil, fail a type assertion, or write to a nil map, for every input. Assumed: the CSS tokenizer (github.com/tdewolff/parse) returns normally and delivers finitely many tokens (its contract in specs/rules.spec), the selector's recursion fits the stack.",
 "C14": "Every obligation of the parser, the serializer and the specificity functions (bounds, nil, type assertions, termination, completeness) is discharged for all inputs. Assumed: contracts of errors, fmt, strconv, strings, regexp; selectors are finite trees; integers do not overflow.",
 "C15": "Proved for every text: the selector parser reads a name, and CssUnescape a text, as the decoding the specification defines step by step (a character as it is, a backslash and a character, a hexadecimal escape with the white space after it), and by lemmas this gives back exactly the name, whichever way each of its characters was written. Assumed: contracts of bytes.Buffer, strconv.ParseUint, strings.Repeat. That the library's own escape (a strings.Replacer) writes names in such a way is bounded: all names of one or two characters of ASCII and some others and random longer ones are written and decoded on every run.",
 "C16": "Proved for every property table (cyclic and partial ones included): if it returns, expandShorthands maps each property to exactly the longhands its table entry reaches, NewMerger uses what it returns for the loaded table, and a declaration sets exactly these, or its own property if it is not in the table. That the table read from the embedded JSON is the intended one, that no property in it sets nothing and that it has no cycle is decided by evaluating all of it (it is a constant) through Merge on every run. Assumed: encoding/json (props.GetProperties has a trusted contract).",
 "C17": "Proved for all specificities and all selectors; integers treated as mathematical.",
 "C19": "Proved by rely and guarantee: each operation of the cache is verified with arbitrary steps of other goroutines (any change of the shared map that keeps its invariant) between any two of its own steps; it keeps the invariant after each step, writes no memory outside the shared map, asserts no wrong type, takes no lock twice and leaves none taken, and a lookup gives a value stored under its key or a miss. Assumed: the operations of sync.Map are atomic and race-free, as documented. Run next to the proof: random operations on several goroutines under the race detector.",
 "C18": "Proved for every state satisfying the cache invariant, hence every history. Assumed: the documented contracts of sync.Map and sync.Mutex.",
}
CLAIMED = sorted(NOTE)
NA = {}
props = [json.loads(l)["id"] for l in open("properties.jsonl")]
m = {"version": 1, "setup_cmd": "bash setup.sh",
     "checks": [{"property": p, "quick_cmd": f"bash check.sh {p} quick", "thorough_cmd": f"bash check.sh {p} thorough",
                 "evidence_file": f"evidence/{p}.json", "technique": TECH, "level": "proof", "level_note": NOTE[p]} for p in CLAIMED],
     "not_applicable": [{"property": p, "reason": NA.get(p, "contracts under construction; not claimed yet")} for p in props if p not in CLAIMED]}
json.dump(m, open("MANIFEST.json", "w"), indent=1)
