# The selector parser is total and returns complete selectors (C14).
package cascadia
transparent cascadia.parser
transparent cascadia.abstractPseudoClass
transparent cascadia.ContainsPseudoClassSelector
transparent cascadia.RegexpPseudoClassSelector
transparent cascadia.NthPseudoClassSelector
transparent cascadia.OnlyChildPseudoClassSelector
transparent cascadia.LangPseudoClassSelector

# A selector without missing parts.
eleminv Sel(v): v != nil
typeinv CombinedSelector(v): v.first != nil && v.second != nil
typeinv AttrSelector(v): v.operation == "#=" ==> v.regexp != nil
typeinv RegexpPseudoClassSelector(v): v.regexp != nil

define at(p) = p != nil && 0 <= p.i && p.i <= len(p.s) && 0 <= p.depth && p.depth <= maxNesting
define levels(p) = maxNesting - p.depth
define forward(p) = 0 <= p.i && p.i <= len(p.s) && old(p.i) <= p.i

func (parser).parseEscape recv p () (r, err)
  requires at(p)
  assigns p.i
  ensures forward(p) && (err == nil ==> old(p.i) < p.i)
  ensures err == nil <==> isEscape(p.s, old(p.i))
  ensures [C15] err == nil ==> r == escText(p.s, old(p.i)) && p.i == escEnd(p.s, old(p.i))
func toLowerASCII (s) (r)
  deterministic
  ensures len(r) == len(s)
func (parser).parseIdentifier recv p () (r, err)
  requires at(p)
  assigns p.i
  ensures forward(p) && (err == nil ==> old(p.i) < p.i)
  ensures [C15] err == nil <==> isIdent(p.s, old(p.i))
  ensures [C15] err == nil ==> r == nm(p.s, old(p.i)) && p.i == nmEnd(p.s, old(p.i))
func (parser).parseName recv p () (r, err)
  requires at(p)
  assigns p.i
  ensures forward(p) && (err == nil ==> old(p.i) < p.i)
  ensures [C15] err == nil <==> nmOK(p.s, old(p.i)) && nm(p.s, old(p.i)) != ""
  ensures [C15] err == nil ==> r == nm(p.s, old(p.i)) && p.i == nmEnd(p.s, old(p.i))
func (parser).parseString recv p () (r, err)
  requires at(p)
  assigns p.i
  ensures forward(p) && (err == nil ==> old(p.i) < p.i)
func (parser).parseRegex recv p () (rx, err)
  requires at(p)
  assigns p.i
  ensures forward(p) && (err == nil ==> rx != nil)
func (parser).skipWhitespace recv p () (r)
  requires at(p)
  assigns p.i
  ensures forward(p) && (r ==> old(p.i) < p.i)
func (parser).consumeParenthesis recv p () (r)
  requires at(p)
  assigns p.i
  ensures forward(p) && (r ==> old(p.i) < p.i)
func (parser).consumeClosingParenthesis recv p () (r)
  requires at(p)
  assigns p.i
  ensures forward(p) && (r ==> old(p.i) < p.i)
func (parser).parseTypeSelector recv p () (r, err)
  requires at(p)
  assigns p.i
  ensures forward(p) && (err == nil ==> old(p.i) < p.i)
func (parser).parseIDSelector recv p () (r, err)
  requires at(p)
  assigns p.i
  ensures forward(p) && (err == nil ==> old(p.i) < p.i)
  ensures [C15] old(p.i) < len(p.s) && p.s[old(p.i)] == 35 && nmOK(p.s, old(p.i)+1) && nm(p.s, old(p.i)+1) != "" <==> err == nil
  ensures [C15] err == nil ==> r == mk(IdSelector, nm(p.s, old(p.i)+1)) && p.i == nmEnd(p.s, old(p.i)+1)
func (parser).parseClassSelector recv p () (r, err)
  requires at(p)
  assigns p.i
  ensures forward(p) && (err == nil ==> old(p.i) < p.i)
  ensures [C15] old(p.i) < len(p.s) && p.s[old(p.i)] == 46 && isIdent(p.s, old(p.i)+1) <==> err == nil
  ensures [C15] err == nil ==> r == mk(ClassSelector, nm(p.s, old(p.i)+1)) && p.i == nmEnd(p.s, old(p.i)+1)
func (parser).parseAttributeSelector recv p () (r, err)
  requires at(p)
  assigns p.i
  ensures forward(p) && (err == nil ==> old(p.i) < p.i)
  ensures [complete] r.operation == "#=" ==> r.regexp != nil
func (parser).parseInteger recv p () (r, err)
  requires at(p)
  assigns p.i
  ensures forward(p) && (err == nil ==> old(p.i) < p.i)
func (parser).parseNth recv p () (a, b, err)
  requires at(p)
  assigns p.i
  ensures forward(p)
func (parser).parsePseudoclassSelector recv p () (out, pe, err)
  requires at(p)
  assigns p.i, p.depth
  decreases levels(p), 1
  ensures forward(p) && p.depth == old(p.depth) && (err == nil ==> old(p.i) < p.i)
  ensures [complete] err == nil && out == nil ==> pe != ""
func (parser).parseSimpleSelectorSequence recv p () (r, err)
  requires at(p)
  assigns p.i, p.depth
  decreases levels(p), 2
  ensures forward(p) && p.depth == old(p.depth) && (err == nil ==> old(p.i) < p.i)
  ensures [complete] err == nil ==> r != nil
func (parser).parseSelector recv p () (r, err)
  requires at(p)
  assigns p.i, p.depth
  decreases levels(p), 3
  ensures forward(p) && p.depth == old(p.depth)
  ensures [complete] err == nil ==> r != nil
func (parser).parseSelectorGroup recv p () (r, err)
  requires at(p)
  assigns p.i, p.depth
  decreases levels(p), 0
  ensures forward(p) && p.depth == old(p.depth)
  ensures [complete] err == nil ==> len(r) > 0

func Parse (s) (r, err)
  ensures [complete] err == nil ==> r != nil
func ParseWithPseudoElement (s) (r, err)
  ensures [complete] err == nil ==> r != nil
func ParseGroup (s) (r, err)
  ensures [complete] err == nil ==> len(r) > 0
func ParseGroupWithPseudoElements (s) (r, err)
  ensures [complete] err == nil ==> len(r) > 0

template cascadia.ALL (p *parser): 0 <= p.i && p.i <= len(p.s) && old(p.i) <= p.i
template cascadia.ALL (p *parser): old(p.i) < p.i
template cascadia.ALL (p *parser): p.depth == old(p.depth)
template cascadia.ALL (v Sel): v != nil
template (parser).parseSimpleSelectorSequence (p *parser): old(p.i) < p.i ||
  p.i == old(p.i) && p.i < len(p.s) && (p.s[p.i] == '#' || p.s[p.i] == '.' || p.s[p.i] == '[' || p.s[p.i] == ':')
template (parser).parseName (p *parser, i int, r string): i == old(p.i) ==> r == "" && p.i == old(p.i)
template toLowerASCII (b []byte, s string): b == nil || len(b) == len(s)
globalinv specialCharReplacer: specialCharReplacer != nil
globalinv stringReplacer: stringReplacer != nil
globalinv errExpectedParenthesis, errExpectedClosingParenthesis, errUnmatchedParenthesis, errTooComplex:
  errExpectedParenthesis != nil && errExpectedClosingParenthesis != nil && errUnmatchedParenthesis != nil && errTooComplex != nil

# Selectors are finite trees: they are built from the parts parsed before, and never changed.
pure height(v any) int
axiom heightNonneg: forall v any {height(v)} :: 0 <= height(v)
treeinv CombinedSelector(v): height(v.first) < height(box(v)) && height(v.second) < height(box(v))
treeinv CompoundSelector(v): forall k int {v.selectors[k]} :: 0 <= k && k < len(v.selectors) ==> height(v.selectors[k]) < height(box(v))
treeinv SelectorGroup(v): forall k int {v[k]} :: 0 <= k && k < len(v) ==> height(v[k]) < height(box(v))
treeinv IsPseudoClassSelector(v): height(box(v.match)) < height(box(v)) &&
  (forall k int {v.match[k]} :: 0 <= k && k < len(v.match) ==> height(v.match[k]) < height(box(v)))
treeinv WherePseudoClassSelector(v): height(box(v.match)) < height(box(v)) &&
  (forall k int {v.match[k]} :: 0 <= k && k < len(v.match) ==> height(v.match[k]) < height(box(v)))
treeinv RelativePseudoClassSelector(v): height(box(v.match)) < height(box(v)) &&
  (forall k int {v.match[k]} :: 0 <= k && k < len(v.match) ==> height(v.match[k]) < height(box(v)))
template cascadia.ALL (p *parser, i int): p.i <= i && i <= len(p.s)
template cascadia.ALL (p *parser, i int): p.i < i
measure cascadia.ALL (p *parser): len(p.s) - p.i
measure cascadia.ALL (p *parser, i int): len(p.s) - i

# Turning a selector into text, its specificity and its parts never panic.
func (SelectorGroup).String recv s () (r)
  decreases height(box(s))
func (Sel).String recv s () (r)
  requires s != nil
  defines r == textOf(s)
  decreases height(s)
  deterministic
func (Sel).PseudoElement recv s () (r)
  requires s != nil
  decreases height(s)
  deterministic

property C14 total: Parse, ParseWithPseudoElement, ParseGroup, ParseGroupWithPseudoElements, (SelectorGroup).String,
  (Sel).String, (Sel).PseudoElement, (Sel).Specificity, (CompoundSelector).PseudoElements, (CompoundSelector).PseudoElementsString,
  (CompoundSelector).Selectors, (CombinedSelector).First, (CombinedSelector).Second, (IsPseudoClassSelector).Selectors,
  (WherePseudoClassSelector).Selectors, IsPseudoElement

# Unescaping.
pure unescape(s string) string
func CssUnescape (b) (r)
  defines r == unescape(bytes(b))
  ensures [C15 text] r == un(bytes(b), 0)

# A selector without a class: w is what WithoutClass gives for v and the name; C12 tells how it is made of the parts'.
pure isWithout(v any, class string, w any) bool
define withoutAll(a, class, b) = len(b) == len(a) && forall k int {b[k]} {a[k]} :: 0 <= k && k < len(a) ==> isWithout(a[k], class, b[k])
func WithoutClass (sel, class) (r)
  deterministic
  ensures (r == nil) <==> (sel == nil)
  ensures [C12] is(sel, ClassSelector) ==> r == ite(sel == box(mk(ClassSelector, class)), box(mk(ClassSelector, "")), sel)
  ensures [C12] is(sel, CompoundSelector) ==> is(r, CompoundSelector) && as(r, CompoundSelector).pseudoElement == as(sel, CompoundSelector).pseudoElement &&
    withoutAll(as(sel, CompoundSelector).selectors, class, as(r, CompoundSelector).selectors)
  ensures [C12] is(sel, CombinedSelector) ==> is(r, CombinedSelector) && as(r, CombinedSelector).combinator == as(sel, CombinedSelector).combinator &&
    isWithout(as(sel, CombinedSelector).first, class, as(r, CombinedSelector).first) && isWithout(as(sel, CombinedSelector).second, class, as(r, CombinedSelector).second)
  ensures [C12] is(sel, IsPseudoClassSelector) ==> is(r, IsPseudoClassSelector) && withoutAll(as(sel, IsPseudoClassSelector).match, class, as(r, IsPseudoClassSelector).match)
  ensures [C12] is(sel, WherePseudoClassSelector) ==> is(r, WherePseudoClassSelector) && withoutAll(as(sel, WherePseudoClassSelector).match, class, as(r, WherePseudoClassSelector).match)
  ensures [C12] !is(sel, ClassSelector) && !is(sel, CompoundSelector) && !is(sel, CombinedSelector) && !is(sel, IsPseudoClassSelector) && !is(sel, WherePseudoClassSelector) ==> r == sel
  defines isWithout(sel, class, r)
  decreases height(sel)
template cascadia.ALL (out []Sel, class param string, i/s over []Sel): forall k int {out[k]} {s[k]} :: 0 <= k && k < i ==> isWithout(s[k], class, out[k])
template cascadia.ALL (out []Sel, i/s over []Sel): len(out) == i
template cascadia.ALL (out []Sel, i over []Sel): forall k int {out[k]} :: 0 <= k && k < i && k < len(out) ==> out[k] != nil
