# Circumstances (C12): where a rule applies, apart from its class.
package cascadia

define isPseudo(v) = is(v, abstractPseudoClass) || is(v, RelativePseudoClassSelector) || is(v, ContainsPseudoClassSelector) || is(v, RegexpPseudoClassSelector) || is(v, NthPseudoClassSelector) || is(v, OnlyChildPseudoClassSelector) || is(v, InputPseudoClassSelector) || is(v, EmptyElementPseudoClassSelector) || is(v, RootPseudoClassSelector) || is(v, LinkPseudoClassSelector) || is(v, LangPseudoClassSelector) || is(v, EnabledPseudoClassSelector) || is(v, DisabledPseudoClassSelector) || is(v, CheckedPseudoClassSelector) || is(v, VisitedPseudoClassSelector) || is(v, HoverPseudoClassSelector) || is(v, ActivePseudoClassSelector) || is(v, FocusPseudoClassSelector) || is(v, TargetPseudoClassSelector) || is(v, ReadOnlyPseudoClassSelector) || is(v, PopoverPseudoClassSelector)
func IsPseudoElement (sel) (r)
  ensures [C12] r <==> isPseudo(sel)

# The text of a selector is decided by the selector, which never changes (C14 shows that nothing writes to selectors).
pure textOf(v any) string

# x is the text of one of a[lo..hi); of a pseudo-class among them.
pure hasText(a arr[Sel], lo int, hi int, x string) bool
axiom hasTextEmpty: forall a arr[Sel], lo int, hi int, x string {hasText(a, lo, hi, x)} :: hi <= lo ==> !hasText(a, lo, hi, x)
axiom hasTextStep: forall a arr[Sel], lo int, hi int, n int, x string {hasText(a, lo, hi, x), hasText(a, lo, n, x)} ::
  lo <= hi && n == hi+1 ==> (hasText(a, lo, n, x) <==> hasText(a, lo, hi, x) || textOf(a[hi]) == x)
lemma hasTextMeaning uses hi hint hasText(a, lo, hi-1, x): forall a arr[Sel], lo int, hi int, x string {hasText(a, lo, hi, x)} ::
  0 <= lo ==> (hasText(a, lo, hi, x) <==> exists v Sel {mem(a, lo, hi, v)} {textOf(v)} :: mem(a, lo, hi, v) && textOf(v) == x)
pure pseudoText(a arr[Sel], lo int, hi int, x string) bool
axiom pseudoTextMeaning: forall a arr[Sel], lo int, hi int, x string {pseudoText(a, lo, hi, x)} ::
  pseudoText(a, lo, hi, x) <==> exists v Sel {mem(a, lo, hi, v)} {textOf(v)} :: mem(a, lo, hi, v) && isPseudo(v) && textOf(v) == x

func (CompoundSelector).PseudoElements recv c () (r)
  ensures fresh(r) || base(r) == 0
  ensures [C12] forall v Sel {mem(r, v)} :: mem(r, v) <==> mem(c.selectors, v) && isPseudo(v)
  ensures [C12] forall x string {hasText(elems(r), from(r), to(r), x)} {pseudoText(elems(c.selectors), from(c.selectors), to(c.selectors), x)} ::
    hasText(elems(r), from(r), to(r), x) <==> pseudoText(elems(c.selectors), from(c.selectors), to(c.selectors), x)
template cascadia.ALL (out []Sel, i/s over []Sel): forall v Sel {mem(out, v)} :: mem(out, v) <==> mem(elems(s), from(s), from(s)+i, v) && isPseudo(v)

# The strings a[lo..hi) one after the other.
pure concat(a arr[string], lo int, hi int) string
define ordered(a, lo, hi) = forall i int, j int {a[i], a[j]} :: lo <= i && i < j && j < hi ==> a[i] < a[j]
define partOf(c, x) = pseudoText(elems(c.selectors), from(c.selectors), to(c.selectors), x)
define modifierParts(c, a, lo, hi) = ordered(a, lo, hi) && forall x string {mem(a, lo, hi, x)} {partOf(c, x)} :: mem(a, lo, hi, x) <==> partOf(c, x)
define modifierAs(c, a, lo, hi) = lo <= hi && ite(c.pseudoElement == "", modifierParts(c, a, lo, hi),
  lo < hi && a[hi-1] == "::" + c.pseudoElement && modifierParts(c, a, lo, hi-1))
define isModifier(c, r) = exists a arr[string], lo int, hi int {concat(a, lo, hi)} :: r == concat(a, lo, hi) && modifierAs(c, a, lo, hi)
func (CompoundSelector).PseudoElementsString recv c () (r)
  prefixes
  deterministic
  ensures [C12] isModifier(c, r)
template (CompoundSelector).PseudoElementsString(out []string, i/s over []Sel): forall x string {mem(out, x)} :: mem(out, x) <==> hasText(elems(s), from(s), from(s)+i, x)
template (CompoundSelector).PseudoElementsString(out []string, i/s over []Sel): len(out) == len(s) && forall x string {mem(elems(out), from(out), from(out)+i, x)} :: mem(elems(out), from(out), from(out)+i, x) <==> hasText(elems(s), from(s), from(s)+i, x)
property C12: WithoutClass, IsPseudoElement, (CompoundSelector).PseudoElements, (CompoundSelector).PseudoElementsString

# Pseudo-classes in another order, or repeated, make no difference; the same circumstance gives the same text.
pure inAgree(a arr[string], lo int, hi int, b arr[string], l2 int, h2 int, n int) bool
lemma sameOrdered local uses n hint inAgree(a, lo, hi, b, l2, h2, n-1), a[lo+n-1], b[l2+n-1], mem(a, lo, hi, b[l2+n-1]), mem(b, l2, h2, a[lo+n-1]):
  forall a arr[string], lo int, hi int, b arr[string], l2 int, h2 int, n int {inAgree(a, lo, hi, b, l2, h2, n)} ::
  0 <= n && n <= hi - lo && n <= h2 - l2 && ordered(a, lo, hi) && ordered(b, l2, h2) &&
  (forall x string {mem(a, lo, hi, x)} {mem(b, l2, h2, x)} :: mem(a, lo, hi, x) <==> mem(b, l2, h2, x)) ==>
    (forall q int {b[q]} :: l2 <= q && q < l2 + n ==> b[q] == a[lo+q-l2]) && (forall q int {a[q]} :: lo <= q && q < lo + n ==> a[q] == b[l2+q-lo])
lemma sameOrderedLength local hint inAgree(a, lo, hi, b, l2, h2, hi-lo), b[l2+(hi-lo)], mem(a, lo, hi, b[l2+(hi-lo)]):
  forall a arr[string], lo int, hi int, b arr[string], l2 int, h2 int {concat(a, lo, hi), concat(b, l2, h2)} ::
  lo <= hi && ordered(a, lo, hi) && ordered(b, l2, h2) &&
  (forall x string {mem(a, lo, hi, x)} {mem(b, l2, h2, x)} :: mem(a, lo, hi, x) <==> mem(b, l2, h2, x)) ==> h2 - l2 <= hi - lo
# Assumed: a text is decided by its parts; the texts of pseudo-classes and of a pseudo-element after them can be told apart.
axiom concatSame local: forall a arr[string], lo int, hi int, b arr[string], l2 int, h2 int {concat(a, lo, hi), concat(b, l2, h2)} ::
  hi - lo == h2 - l2 && (forall q int {a[q]} {b[l2+q-lo]} :: lo <= q && q < hi ==> a[q] == b[l2+q-lo]) ==> concat(a, lo, hi) == concat(b, l2, h2)
define sameMembers(a, lo, hi, b, l2, h2) = forall x string {mem(a, lo, hi, x)} {mem(b, l2, h2, x)} :: mem(a, lo, hi, x) <==> mem(b, l2, h2, x)
lemma sameParts local hint inAgree(a, lo, hi, b, l2, h2, hi-lo), concat(b, l2, h2), concat(a, lo, hi): forall a arr[string], lo int, hi int, b arr[string], l2 int, h2 int {concat(a, lo, hi), concat(b, l2, h2)} ::
  lo <= hi && l2 <= h2 && ordered(a, lo, hi) && ordered(b, l2, h2) && sameMembers(a, lo, hi, b, l2, h2) ==> concat(a, lo, hi) == concat(b, l2, h2)
lemma samePartsElement local hint inAgree(a, lo, hi-1, b, l2, h2-1, hi-1-lo), concat(a, lo, hi-1), concat(b, l2, h2-1), concat(b, l2, h2), concat(a, lo, hi), b[h2-1]: forall a arr[string], lo int, hi int, b arr[string], l2 int, h2 int {concat(a, lo, hi), concat(b, l2, h2)} ::
  lo < hi && l2 < h2 && a[hi-1] == b[h2-1] && ordered(a, lo, hi-1) && ordered(b, l2, h2-1) && sameMembers(a, lo, hi-1, b, l2, h2-1) ==> concat(a, lo, hi) == concat(b, l2, h2)
pure isPart(x string) bool
pure isElement(x string) bool
axiom partMeaning local: forall c CompoundSelector, x string {partOf(c, x)} :: partOf(c, x) ==> isPart(x) && !isElement(x)
axiom elementMeaning local: forall p string {isElement("::" + p)} :: isPart("::" + p) && isElement("::" + p)
define allParts(a, lo, hi) = forall q int {a[q]} :: lo <= q && q < hi ==> isPart(a[q])
axiom toldApart local: forall a arr[string], lo int, hi int, b arr[string], l2 int, h2 int {concat(a, lo, hi), concat(b, l2, h2)} ::
  concat(a, lo, hi) == concat(b, l2, h2) && allParts(a, lo, hi) && allParts(b, l2, h2) ==>
    hi - lo == h2 - l2 && (forall q int {a[q]} :: lo <= q && q < hi ==> a[q] == b[l2+q-lo]) && (forall q int {b[q]} :: l2 <= q && q < h2 ==> b[q] == a[lo+q-l2])
pure modifierOf(c CompoundSelector, a arr[string], lo int, hi int) bool
axiom modifierOfDef local: forall c CompoundSelector, a arr[string], lo int, hi int {modifierOf(c, a, lo, hi)} :: modifierOf(c, a, lo, hi) <==> modifierAs(c, a, lo, hi)
lemma partsOf local hint isElement("::" + c.pseudoElement): forall c CompoundSelector, a arr[string], lo int, hi int {modifierOf(c, a, lo, hi)} ::
  modifierOf(c, a, lo, hi) ==> allParts(a, lo, hi)
lemma sameModifier: forall c CompoundSelector, d CompoundSelector, r string, s string ::
  isModifier(c, r) && isModifier(d, s) && c.pseudoElement == d.pseudoElement && (forall x string {partOf(c, x)} {partOf(d, x)} :: partOf(c, x) <==> partOf(d, x)) ==> r == s
lemma apartElement local hint isElement("::" + c.pseudoElement), isElement("::" + d.pseudoElement), a[hi-1], b[h2-1], modifierOf(c, a, lo, hi), modifierOf(d, b, l2, h2), mem(a, lo, hi-1, a[hi-1]), mem(b, l2, h2-1, b[h2-1]), mem(a, lo, hi, a[hi-1]), mem(b, l2, h2, b[h2-1]):
  forall c CompoundSelector, d CompoundSelector, a arr[string], lo int, hi int, b arr[string], l2 int, h2 int {modifierOf(c, a, lo, hi), modifierOf(d, b, l2, h2)} ::
  modifierOf(c, a, lo, hi) && modifierOf(d, b, l2, h2) && concat(a, lo, hi) == concat(b, l2, h2) ==>
    (c.pseudoElement == "" <==> d.pseudoElement == "") && "::" + c.pseudoElement == "::" + d.pseudoElement
lemma apartPart local hint mem(a, lo, hi, x), mem(a, lo, hi-1, x), mem(b, l2, h2, x), mem(b, l2, h2-1, x): forall c CompoundSelector, d CompoundSelector, a arr[string], lo int, hi int, b arr[string], l2 int, h2 int, x string {modifierOf(c, a, lo, hi), modifierOf(d, b, l2, h2), partOf(c, x)} ::
  partOf(c, x) && modifierOf(c, a, lo, hi) && modifierOf(d, b, l2, h2) && concat(a, lo, hi) == concat(b, l2, h2) ==>
    partOf(d, x)
lemma apartModifier local:
  forall c CompoundSelector, d CompoundSelector, a arr[string], lo int, hi int, b arr[string], l2 int, h2 int {modifierOf(c, a, lo, hi), modifierOf(d, b, l2, h2)} ::
  modifierOf(c, a, lo, hi) && modifierOf(d, b, l2, h2) && concat(a, lo, hi) == concat(b, l2, h2) ==>
    (c.pseudoElement == "" <==> d.pseudoElement == "") && "::" + c.pseudoElement == "::" + d.pseudoElement && (forall x string {partOf(c, x)} {partOf(d, x)} :: partOf(c, x) <==> partOf(d, x))
