# Loading rules (C11, C13): which class names a rule is filed under.
package merge
transparent cascadia.ClassSelector

# The class names of a selector, those in :not() and :has() aside.
pure clsIn(v any, c string) bool
pure anyCls(a arr[cascadia.Sel], lo int, hi int, c string) bool
axiom anyClsEmpty: forall a arr[cascadia.Sel], lo int, hi int, c string {anyCls(a, lo, hi, c)} :: hi <= lo ==> !anyCls(a, lo, hi, c)
axiom anyClsStep: forall a arr[cascadia.Sel], lo int, hi int, n int, c string {anyCls(a, lo, hi, c), anyCls(a, lo, n, c)} ::
  lo <= hi && n == hi+1 ==> (anyCls(a, lo, n, c) <==> anyCls(a, lo, hi, c) || clsIn(a[hi], c))
define isCls(v) = is(v, cascadia.ClassSelector)
axiom clsOther: forall v any, c string {clsIn(v, c)} :: !is(v, cascadia.CombinedSelector) && !is(v, cascadia.CompoundSelector) &&
  !is(v, cascadia.IsPseudoClassSelector) && !is(v, cascadia.WherePseudoClassSelector) ==>
  (clsIn(v, c) <==> v == box(mk(cascadia.ClassSelector, c)))
treeinv cascadia.CombinedSelector(v): forall c string {clsIn(box(v), c)} :: clsIn(box(v), c) <==> clsIn(v.first, c) || clsIn(v.second, c)
treeinv cascadia.CompoundSelector(v): forall c string {clsIn(box(v), c)} :: clsIn(box(v), c) <==> anyCls(elems(v.selectors), from(v.selectors), to(v.selectors), c)
treeinv cascadia.IsPseudoClassSelector(v): forall c string {clsIn(box(v), c)} :: clsIn(box(v), c) <==> anyCls(elems(v.match), from(v.match), to(v.match), c)
treeinv cascadia.WherePseudoClassSelector(v): forall c string {clsIn(box(v), c)} :: clsIn(box(v), c) <==> anyCls(elems(v.match), from(v.match), to(v.match), c)

func walk (selector) (r)
  requires selector != nil
  decreases height(selector)
  ensures fresh(r) || base(r) == 0
  ensures [C11] forall c string {clsIn(selector, c)} :: clsIn(selector, c) <==> mem(r, box(mk(cascadia.ClassSelector, c)))
template walk (out []cascadia.Sel, i/s over []cascadia.Sel): forall c string {mem(out, box(mk(cascadia.ClassSelector, c)))} ::
  mem(out, box(mk(cascadia.ClassSelector, c))) <==> anyCls(elems(s), from(s), from(s)+i, c)
property C11 total: walk
property C13 total: walk

# The last of the rules a[lo..hi) that is to be filed under the name c, or lo-1.
pure lastReg(a arr[cascadia.CssRule], lo int, hi int, c string) int
axiom lastRegEmpty: forall a arr[cascadia.CssRule], lo int, hi int, c string {lastReg(a, lo, hi, c)} :: hi <= lo ==> lastReg(a, lo, hi, c) == lo-1
axiom lastRegStep: forall a arr[cascadia.CssRule], lo int, hi int, n int, c string {lastReg(a, lo, hi, c), lastReg(a, lo, n, c)} ::
  lo <= hi && n == hi+1 ==> lastReg(a, lo, n, c) == ite(clsIn(a[hi].Selector, c), hi, lastReg(a, lo, hi, c))
lemma lastRegRange uses hi hint lastReg(a, lo, hi-1, c): forall a arr[cascadia.CssRule], lo int, hi int, c string {lastReg(a, lo, hi, c)} ::
  0 <= lo ==> lo-1 <= lastReg(a, lo, hi, c) && (lo <= hi ==> lastReg(a, lo, hi, c) < hi)

func (Merger).AddRules recv r (reader, inline) (err)
  requires r != nil && rulesOK(r)
  assigns contents(r.rules), r.cache.dom, r.cache.val
  ensures rulesOK(r)
  ensures [C09] r.cache != nil ==> r.cache.dom == emptyset(r.cache.dom)
  ensures [C11] err != nil ==> dom(r.rules) == old(dom(r.rules)) && vals(r.rules) == old(vals(r.rules))
  ensures [C11] err == nil ==> exists a arr[cascadia.CssRule], lo int, hi int {loaded(reader, inline, a, lo, hi)} :: loaded(reader, inline, a, lo, hi) &&
    forall c string {lastReg(a, lo, hi, c)} {has(r.rules, c)} :: (has(r.rules, c) <==> lastReg(a, lo, hi, c) >= lo || old(has(r.rules, c))) &&
      ite(lastReg(a, lo, hi, c) >= lo, r.rules[c] == a[lastReg(a, lo, hi, c)], r.rules[c] == old(r.rules[c]))
template (Merger).AddRules (r param *Merger, i/q over []cascadia.CssRule): forall c string {has(r.rules, c)} {lastReg(elems(q), from(q), from(q)+i, c)} ::
   (has(r.rules, c) <==> lastReg(elems(q), from(q), from(q)+i, c) >= from(q) || old(has(r.rules, c))) &&
   ite(lastReg(elems(q), from(q), from(q)+i, c) >= from(q), r.rules[c] == elems(q)[lastReg(elems(q), from(q), from(q)+i, c)], r.rules[c] == old(r.rules[c]))
template (Merger).AddRules (r param *Merger, j/s over []cascadia.Sel, i/q over []cascadia.CssRule): forall c string {has(r.rules, c)} {lastReg(elems(q), from(q), from(q)+i, c)} ::
   (has(r.rules, c) <==> mem(elems(s), from(s), from(s)+j, box(mk(cascadia.ClassSelector, c))) || lastReg(elems(q), from(q), from(q)+i, c) >= from(q) || old(has(r.rules, c))) &&
   ite(mem(elems(s), from(s), from(s)+j, box(mk(cascadia.ClassSelector, c))), r.rules[c] == elems(q)[from(q)+i],
   ite(lastReg(elems(q), from(q), from(q)+i, c) >= from(q), r.rules[c] == elems(q)[lastReg(elems(q), from(q), from(q)+i, c)], r.rules[c] == old(r.rules[c])))
template (Merger).AddRules (r param *Merger): rulesOK(r)

func NewMerger (cache, keepSort) (r)
  ensures [C16] exists ep int, m map[string]props.Property {isTable(m), expanded(ep, m, r.properties)} :: isTable(m) && expanded(ep, m, r.properties)
  ensures r != nil && fresh(r) && rulesOK(r) && r.cache == cache && r.keepSort == keepSort
  ensures [C11] forall c string {has(r.rules, c)} :: !has(r.rules, c)
property C11 total: (Merger).AddRules
property C13 total: (Merger).AddRules
# NewMerger has no input that its loops depend on: its termination is a fact about the constant table of properties, seen in every run.
property C11: NewMerger
property C13: NewMerger
property C09: (Merger).AddRules, NewMerger

# Reading the embedded property table (its contents are checked by C16).
func props.GetProperties () (m, err)
  allocates
  ensures err == nil ==> m != nil
  defines isTable(m)
  trusted
extern log.Fatal(v []any) ()
  ensures false
