# What the events of a stylesheet stand for.
package cascadia

# At-rules (C11, C12): the text of the tokens, and the condition that an at-rule makes of it.
pure textAll(h arr[arr[byte]], a arr[css.Token], lo int, hi int) string
axiom textAllNone: forall h arr[arr[byte]], a arr[css.Token], lo int, hi int {textAll(h, a, lo, hi)} :: hi <= lo ==> textAll(h, a, lo, hi) == ""
axiom textAllStep: forall h arr[arr[byte]], a arr[css.Token], lo int, i int, n int {textAll(h, a, lo, i), textAll(h, a, lo, n)} ::
  lo <= i && n == i+1 ==> textAll(h, a, lo, n) == textAll(h, a, lo, i) + bytes(h, a[i].Data)
define tokensText(s) = textAll(elemHeap(s[0].Data), elems(s), from(s), to(s))
define conditionOf(name, text) = ite(name == "@media", text, ite(name == "@supports", "@supports " + text, ""))
func parseAtRuleName(data, values) (name, condition)
  ensures [C11, C12] condition == conditionOf(bytes(data), tokensText(values))
  ensures [C11, C12] name == "" <==> bytes(data) != "@media" && bytes(data) != "@supports"
template cascadia.ALL (b *strings.Builder, i/s over []css.Token): b.text == textAll(elemHeap(s[0].Data), elems(s), from(s), from(s)+i)
property C12: parseAtRuleName

# Open blocks: at-rules, and style rules.
pure kind(t int) int
pure rest(t int) int
pure pushAt(t int, name string, text string) int
pure pushRule(t int) int
axiom kindNone: kind(0) == 0
axiom kindAt: forall t int, a string, x string {pushAt(t, a, x)} :: kind(pushAt(t, a, x)) == 1 && rest(pushAt(t, a, x)) == t
axiom kindRule: forall t int {pushRule(t)} :: kind(pushRule(t)) == 2 && rest(pushRule(t)) == t
define afterEvent(gt, data, text, t) = ite(gt == 3, pushAt(t, data, text), ite(gt == 6, pushRule(t), ite(gt == 4 || gt == 7, rest(t), t)))

# plain: only @media and @supports; condOf: their conditions from the outside in; core: the outermost blocks, as far as they are plain;
# ats, rls: the number of at-rules and style rules inside of these, and whether the outermost of them is an at-rule (1) or a style rule (2).
define wanted(a) = a == "@media" || a == "@supports"
define addCond(x, c) = ite(x != "" && c != "", x + "{" + c, x + c)
pure plain(t int) bool
pure condOf(t int) string
pure core(t int) int
pure ats(t int) int
pure rls(t int) int
pure outermost(t int) int
axiom plainNone: plain(0) && condOf(0) == ""
axiom plainAt: forall t int, a string, x string {pushAt(t, a, x)} :: (plain(pushAt(t, a, x)) <==> plain(t) && wanted(a)) && condOf(pushAt(t, a, x)) == addCond(condOf(t), conditionOf(a, x))
axiom plainRule: forall t int {pushRule(t)} :: !plain(pushRule(t))
axiom basePlain: forall t int {core(t)} {ats(t)} {rls(t)} {outermost(t)} :: plain(t) ==> core(t) == t && ats(t) == 0 && rls(t) == 0 && outermost(t) == 0
axiom baseAt: forall t int, a string, x string {pushAt(t, a, x)} :: !plain(pushAt(t, a, x)) ==>
  core(pushAt(t, a, x)) == core(t) && ats(pushAt(t, a, x)) == ats(t)+1 && rls(pushAt(t, a, x)) == rls(t) && outermost(pushAt(t, a, x)) == ite(plain(t), 1, outermost(t))
axiom baseRule: forall t int {pushRule(t)} :: core(pushRule(t)) == core(t) && ats(pushRule(t)) == ats(t) && rls(pushRule(t)) == rls(t)+1 && outermost(pushRule(t)) == ite(plain(t), 2, outermost(t))

# proper: a stack of blocks, where only at-rules are directly in style rules.
pure proper(t int) bool
pure nest(t int) int
axiom properMeaning: forall t int {proper(t)} :: proper(t) <==> nest(t) >= 0 && (t == 0 && nest(t) == 0
  || kind(t) == 1 && proper(rest(t)) && nest(t) == nest(rest(t))+1 && (exists a string, x string {pushAt(rest(t), a, x)} :: t == pushAt(rest(t), a, x))
  || kind(t) == 2 && proper(rest(t)) && nest(t) == nest(rest(t))+1 && t == pushRule(rest(t)) && kind(rest(t)) != 2)
axiom heightPush: forall t int, a string, x string {pushAt(t, a, x)} :: nest(pushAt(t, a, x)) == nest(t)+1
axiom heightRule: forall t int {pushRule(t)} :: nest(pushRule(t)) == nest(t)+1
axiom heightNone: nest(0) == 0
lemma properCounts uses nest(t) hint proper(rest(t)), outermost(rest(t)), pushRule(rest(t)): forall t int {proper(t)} :: proper(t) ==>
  ats(t) >= 0 && rls(t) >= 0 && proper(core(t)) && plain(core(t)) && (outermost(t) == 0 <==> plain(t)) && 0 <= outermost(t) && outermost(t) <= 2 &&
  (outermost(t) == 1 ==> ats(t) >= 1) && (outermost(t) == 2 ==> rls(t) >= 1) && (outermost(t) == 2 && ats(t) == 0 ==> kind(t) == 2 && plain(rest(t)))

# The conditions of the outer blocks, in a list.
pure outer(a arr[string], lo int, hi int, t int) bool
axiom outerMeaning: forall a arr[string], lo int, hi int, t int {outer(a, lo, hi, t)} :: outer(a, lo, hi, t) <==>
  (t == 0 && lo == hi || t != 0 && lo < hi && a[hi-1] == condOf(rest(t)) && outer(a, lo, hi-1, rest(t)))
lemma outerSame uses hi-lo hint outer(b, l2, h2-1, rest(t)), outer(a, lo, hi-1, rest(t)), b[h2-1]: forall a arr[string], lo int, hi int, b arr[string], l2 int, h2 int, t int {outer(a, lo, hi, t), outer(b, l2, h2, t)} ::
  h2-l2 == hi-lo && (forall q int {b[q]} :: l2 <= q && q < h2 ==> b[q] == a[lo+q-l2]) && outer(a, lo, hi, t) ==> outer(b, l2, h2, t)
lemma outerLength uses hi-lo hint outer(a, lo, hi-1, rest(t)): forall a arr[string], lo int, hi int, t int {outer(a, lo, hi, t)} :: outer(a, lo, hi, t) ==> lo <= hi

# A reading of a stylesheet: whether it has no syntax errors, and the style rules in it with the blocks around them.
pure readingOf(rd io.Reader, inline bool, id int) bool
pure properly(id int) bool
pure styleRule(id int, n int, t int) bool
pure isCondition(id int, c string) bool
axiom isConditionOf: forall id int, n int, t int {styleRule(id, n, t)} :: styleRule(id, n, t) && plain(t) ==> isCondition(id, condOf(t))
pure normal(s string) string
func normalizeWhitespace (s) (r)
  defines r == normal(s)
func buildDeclaration (p, data) (r)
  requires p != nil
  ensures [C11] r.Property == unescape(bytes(data)) && r.Value == normal(p.text)
func getSelector (data, tokens) (sel, err)
  ensures err == nil ==> sel != nil
func splitSelectorGroup (tokens) (group)
template ExtractRules (p *css.Parser): properly(p.id) ==> p.clean
template ExtractRules (p *css.Parser): p.clean ==> proper(p.top)
template ExtractRules (p *css.Parser, c phi string): p.clean ==> c == condOf(core(p.top))
template ExtractRules (p *css.Parser, q phi []string): p.clean ==> outer(elems(q), from(q), to(q), core(p.top))
template ExtractRules (p *css.Parser, ignore phi int, nested phi int, in phi bool, bad phi bool): p.clean ==>
  ite(outermost(p.top) == 0, ignore == 0 && !in && !bad,
    ite(outermost(p.top) == 1, ignore == ats(p.top) && !in && !bad,
      in && ite(bad, ignore == 0 && nested == rls(p.top)-1, ignore == ats(p.top)))) && (!bad ==> nested == 0)
template ExtractRules (p *css.Parser, r CssRule, bad phi bool): p.clean && outermost(p.top) == 2 && !bad ==> isCondition(p.id, r.condition)
template ExtractRules (p *css.Parser, r CssRule, i/s over []Sel): p.clean && len(s) > 0 ==> isCondition(p.id, r.condition)
template ExtractRules (bad phi bool, s phi []Sel): bad ==> len(s) == 0
template ExtractRules (p *css.Parser, q phi []CssRule): p.clean ==> forall k int {q[k]} :: 0 <= k && k < len(q) ==> isCondition(p.id, q[k].condition)
property C11: ExtractRules, buildDeclaration, getSelector, splitSelectorGroup, normalizeWhitespace
property C12: ExtractRules
