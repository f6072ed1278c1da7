# Merging (C01 - C10).
package merge
transparent merge.Merger
transparent merge.propKey
transparent cascadia.CssRule
transparent cascadia.CssDeclaration
transparent props.Property
transparent props.property

# --- slices ---------------------------------------------------------------------------------------------------------

define strict(a, lo, hi) = forall i int, j int {a[i], a[j]} :: lo <= i && i < j && j < hi ==> a[i] < a[j]

# The last index of s in a[lo..hi), or lo-1.
pure lastIn(a arr[string], lo int, hi int, s string) int
axiom lastInEmpty: forall a arr[string], lo int, hi int, s string {lastIn(a, lo, hi, s)} :: hi <= lo ==> lastIn(a, lo, hi, s) == lo-1
axiom lastInStep: forall a arr[string], lo int, hi int, n int, s string {lastIn(a, lo, hi, s), lastIn(a, lo, n, s)} ::
  lo <= hi && n == hi+1 ==> lastIn(a, lo, n, s) == ite(a[hi] == s, hi, lastIn(a, lo, hi, s))
lemma lastInMeaning uses hi hint lastIn(a, lo, hi-1, s): forall a arr[string], lo int, hi int, s string {lastIn(a, lo, hi, s)} ::
  0 <= lo ==> lo-1 <= lastIn(a, lo, hi, s) && (lo <= hi ==> lastIn(a, lo, hi, s) < hi) &&
  (lo <= lastIn(a, lo, hi, s) ==> a[lastIn(a, lo, hi, s)] == s) &&
  (forall k int {a[k]} :: lastIn(a, lo, hi, s) < k && lo <= k && k < hi ==> a[k] != s)

func unique (x) (r)
  assigns contents(x)
  ensures base(r) == base(x) && off(r) == off(x) && len(r) <= len(x) && cap(r) == cap(x)
  ensures forall y string {mem(r, y)} :: mem(r, y) <==> old(mem(x, y))
  ensures forall y string {old(mem(x, y))} :: old(mem(x, y)) ==> mem(r, y)
  ensures strict(elems(r), from(r), to(r))

func sortSubset (sub, full) ()
  requires base(sub) != base(full)
  assigns contents(sub)
  ensures forall y string {mem(sub, y)} :: mem(sub, y) <==> old(mem(sub, y))
  ensures forall y string {old(mem(sub, y))} :: old(mem(sub, y)) ==> mem(sub, y)
  ensures forall i int, j int {elems(sub)[i], elems(sub)[j]} :: from(sub) <= i && i < j && j < to(sub) ==>
    (old(strict(elems(sub), from(sub), to(sub))) ==> elems(sub)[i] != elems(sub)[j]) &&
    (mem(full, elems(sub)[i]) && mem(full, elems(sub)[j]) ==>
      lastIn(elems(full), from(full), to(full), elems(sub)[i]) <= lastIn(elems(full), from(full), to(full), elems(sub)[j]))
template sortSubset(m map[string]int, i/full over []string): forall s string {m[s]} {has(m, s)} ::
  (has(m, s) <==> lastIn(elems(full), from(full), from(full)+i, s) >= from(full)) &&
  (has(m, s) ==> m[s] == lastIn(elems(full), from(full), from(full)+i, s) - from(full))

# --- declarations ----------------------------------------------------------------------------------------------------

# Assumed: the documented behaviour of the regexp package.
pure rxmatch(pat string, s string) bool
pure nmatch(pat string, s string) int
pure ngroups(pat string) int
pure group(pat string, s string, k int, j int) string
extern regexp.(Regexp).MatchString recv re (s string) (r bool)
  deterministic
  requires re != nil
  ensures r <==> rxmatch(rxpat(re), s)
extern regexp.(Regexp).FindAllStringSubmatch recv re (s string, n int) (r [][]string)
  allocates
  requires re != nil && n < 0
  ensures len(r) == nmatch(rxpat(re), s)
  ensures forall k int {r[k]} :: 0 <= k && k < len(r) ==> len(r[k]) == ngroups(rxpat(re)) && allocated(r[k])
  ensures forall k int, j int {r[k][j]} :: 0 <= k && k < len(r) && 0 <= j && j < len(r[k]) ==> r[k][j] == group(rxpat(re), s, k, j)

# What marks a declaration as important, and where it uses custom properties (in the first group).
define IMPORTANT() = "(?i)!(?:\\s|/\\*(?:[^*]|\\*+[^*/])*\\*+/)*important(?:\\s|/\\*(?:[^*]|\\*+[^*/])*\\*+/)*$"
define CUSTOMVAR() = "(?i)\"(?:\\\\.|[^\"\\\\])*\"|'(?:\\\\.|[^'\\\\])*'|/\\*(?:[^*]|\\*+[^*/])*\\*+/|var\\((?:\\s|/\\*(?:[^*]|\\*+[^*/])*\\*+/)*(--(?:\\\\[0-9a-f]{1,6}\\s?|\\\\.|[^\\s,)/\\\\])+)"
globalinv importantRegex: importantRegex != nil && rxpat(importantRegex) == IMPORTANT()
globalinv customVarRegex: customVarRegex != nil && rxpat(customVarRegex) == CUSTOMVAR()

define important(value) = rxmatch(IMPORTANT(), value)
pure uses(value string, name string) bool
axiom usesMeaning: forall value string, name string {uses(value, name)} :: uses(value, name) <==>
  ngroups(CUSTOMVAR()) >= 2 && (exists k int {group(CUSTOMVAR(), value, k, 1)} :: 0 <= k && k < nmatch(CUSTOMVAR(), value) &&
    group(CUSTOMVAR(), value, k, 1) != "" && name == unescape(group(CUSTOMVAR(), value, k, 1)))

func getCustomVarsInDec (dec) (r)
  ensures fresh(r) || r == nil
  ensures forall v string {mem(r, v)} {uses(dec.Value, v)} :: mem(r, v) <==> uses(dec.Value, v)
template getCustomVarsInDec(vars []string, dec cascadia.CssDeclaration, k/m over [][]string):
  (forall v string {mem(vars, v)} :: mem(vars, v) ==> uses(dec.Value, v)) &&
  (forall q int {group(CUSTOMVAR(), dec.Value, q, 1)} :: 0 <= q && q < k && ngroups(CUSTOMVAR()) >= 2 && group(CUSTOMVAR(), dec.Value, q, 1) != "" ==>
    mem(vars, unescape(group(CUSTOMVAR(), dec.Value, q, 1))))

# The properties that a declaration sets, by the property table.
heapfn setsProp(ep int, r *Merger, dec cascadia.CssDeclaration, name string) bool =
  ite(has(r.properties, dec.Property), mem(r.properties[dec.Property].property.Computed, name), dec.Property == name)
heapfn decl(ep int, rule cascadia.CssRule, d int) cascadia.CssDeclaration = rule.Declarations[d]
define ndecl(rule) = len(rule.Declarations)

func (Merger).affectsProp recv r (dec, name) (b)
  requires r != nil
  ensures b <==> setsProp(EPOCH, r, dec, name)

# Some declaration before d sets the property; some important one; the effective one (the last important one, else the last).
pure anyDec(ep int, r *Merger, rule cascadia.CssRule, d int, name string) bool
pure impDec(ep int, r *Merger, rule cascadia.CssRule, d int, name string) bool
pure effDec(ep int, r *Merger, rule cascadia.CssRule, d int, name string) int
axiom decStart: forall ep int, r *Merger, rule cascadia.CssRule, d int, name string {anyDec(ep, r, rule, d, name)} {impDec(ep, r, rule, d, name)} ::
  d <= 0 ==> !anyDec(ep, r, rule, d, name) && !impDec(ep, r, rule, d, name)
axiom decStep: forall ep int, r *Merger, rule cascadia.CssRule, d int, n int, name string {anyDec(ep, r, rule, d, name), anyDec(ep, r, rule, n, name)} ::
  0 <= d && n == d+1 ==> (anyDec(ep, r, rule, n, name) <==> anyDec(ep, r, rule, d, name) || setsProp(ep, r, decl(ep, rule, d), name))
axiom impDecStep: forall ep int, r *Merger, rule cascadia.CssRule, d int, n int, name string {impDec(ep, r, rule, d, name), impDec(ep, r, rule, n, name)} ::
  0 <= d && n == d+1 ==> (impDec(ep, r, rule, n, name) <==>
    impDec(ep, r, rule, d, name) || setsProp(ep, r, decl(ep, rule, d), name) && important(decl(ep, rule, d).Value))
axiom effDecStep: forall ep int, r *Merger, rule cascadia.CssRule, d int, n int, name string {effDec(ep, r, rule, d, name), effDec(ep, r, rule, n, name)} ::
  0 <= d && n == d+1 ==> effDec(ep, r, rule, n, name) ==
    ite(setsProp(ep, r, decl(ep, rule, d), name) && (important(decl(ep, rule, d).Value) || !impDec(ep, r, rule, d, name)), d, effDec(ep, r, rule, d, name))
lemma impDecIsAny uses d hint impDec(ep, r, rule, d-1, name), anyDec(ep, r, rule, d-1, name): forall ep int, r *Merger, rule cascadia.CssRule, d int, name string {impDec(ep, r, rule, d, name)} ::
  impDec(ep, r, rule, d, name) ==> anyDec(ep, r, rule, d, name)
lemma anyDecMeaning uses d hint anyDec(ep, r, rule, d-1, name): forall ep int, r *Merger, rule cascadia.CssRule, d int, name string {anyDec(ep, r, rule, d, name)} ::
  0 <= d ==> (anyDec(ep, r, rule, d, name) <==> exists k int {decl(ep, rule, k)} :: 0 <= k && k < d && setsProp(ep, r, decl(ep, rule, k), name))

func (Merger).getAffectedProps recv r (rule) (names)
  requires r != nil
  ensures fresh(names) && strict(elems(names), from(names), to(names))
  ensures forall x string {mem(names, x)} :: mem(names, x) ==> anyDec(EPOCH, r, rule, ndecl(rule), x)
  ensures forall q int {elems(names)[q]} :: from(names) <= q && q < to(names) ==> anyDec(EPOCH, r, rule, ndecl(rule), elems(names)[q])
  ensures forall x string {anyDec(EPOCH, r, rule, ndecl(rule), x)} :: anyDec(EPOCH, r, rule, ndecl(rule), x) ==> mem(names, x)
template (Merger).getAffectedProps(v []string, r *Merger, rule cascadia.CssRule, d/ds over []cascadia.CssDeclaration):
  (forall x string {mem(v, x)} :: mem(v, x) ==> anyDec(EPOCH, r, rule, d, x)) &&
  (forall x string {anyDec(EPOCH, r, rule, d, x)} :: anyDec(EPOCH, r, rule, d, x) ==> mem(v, x))

# --- class lists -----------------------------------------------------------------------------------------------------

# Assumed: the documented behaviour of strings.Fields and strings.Join (the names of a joined list of names are the names).
pure toks(s string) arr[string]
pure ntok(s string) int
pure isName(s string) bool
axiom ntokNonneg: forall s string {ntok(s)} :: 0 <= ntok(s)
axiom toksNames: forall s string, y string {mem(toks(s), 0, ntok(s), y)} :: mem(toks(s), 0, ntok(s), y) ==> isName(y)
extern strings.Fields(s string) (r []string)
  allocates
  ensures fresh(r) && off(r) == 0 && elems(r) == toks(s) && len(r) == ntok(s)
axiom joinedNames: forall a arr[string], lo int, hi int {joined(a, lo, hi)} :: lo <= hi && (forall y string {mem(a, lo, hi, y)} :: mem(a, lo, hi, y) ==> isName(y)) ==>
  ntok(joined(a, lo, hi)) == hi - lo && (forall j int {toks(joined(a, lo, hi))[j]} :: 0 <= j && j < hi - lo ==> toks(joined(a, lo, hi))[j] == a[lo+j] && mem(a, lo, hi, a[lo+j])) &&
  (forall y string {mem(toks(joined(a, lo, hi)), 0, ntok(joined(a, lo, hi)), y)} :: mem(toks(joined(a, lo, hi)), 0, ntok(joined(a, lo, hi)), y) <==> mem(a, lo, hi, y)) &&
  joined(toks(joined(a, lo, hi)), 0, ntok(joined(a, lo, hi))) == joined(a, lo, hi)
define tok(in, i) = toks(in)[i]
define canonical(s) = s == joined(toks(s), 0, ntok(s))
define lastAt(in, s) = lastIn(toks(in), 0, ntok(in), s)

# --- the rules of a merger ------------------------------------------------------------------------------------------

heapfn known(ep int, r *Merger, c string) bool = has(r.rules, c)
heapfn ruleOf(ep int, r *Merger, c string) cascadia.CssRule = r.rules[c]
define rulesOK(r) = r.rules != nil && forall c string {has(r.rules, c)} {r.rules[c]} :: has(r.rules, c) ==> r.rules[c].Selector != nil
define custom(name) = len(name) >= 2 && name[0:2] == "--"

define classOnly(v) = is(v, cascadia.ClassSelector)
define parts(v) = as(v, cascadia.CompoundSelector).selectors
# A class, then pseudo-classes only.
pure classFirst(a arr[cascadia.Sel], lo int, hi int) bool
axiom classFirstMeaning: forall a arr[cascadia.Sel], lo int, hi int {classFirst(a, lo, hi)} ::
  classFirst(a, lo, hi) <==> forall k int {a[k]} :: lo <= k && k < hi ==> ite(k == lo, is(a[k], cascadia.ClassSelector), isPseudo(a[k]))
define classAndPseudo(v) = is(v, cascadia.CompoundSelector) && classFirst(elems(parts(v)), from(parts(v)), to(parts(v)))
func classWithPseudo (sel) (r)
  ensures [C12] r <==> classAndPseudo(sel)
func isClass (sel) (r)
  ensures [C12] r <==> classOnly(sel)
template classWithPseudo (i/s over []cascadia.Sel): forall k int {elems(s)[k]} :: from(s) <= k && k < from(s)+i ==>
  ite(k == from(s), is(elems(s)[k], cascadia.ClassSelector), isPseudo(elems(s)[k]))
func propModifier (class, rule) (m)
  requires rule.Selector != nil
  deterministic
  ensures [C12] classOnly(rule.Selector) ==> m == ""
  ensures [C12] classAndPseudo(rule.Selector) ==> isModifier(as(rule.Selector, cascadia.CompoundSelector), m)
  ensures [C12] !classOnly(rule.Selector) && !classAndPseudo(rule.Selector) ==> exists w cascadia.Sel {isWithout(rule.Selector, class, w)} :: isWithout(rule.Selector, class, w) && m == textOf(w)
property C12: propModifier

# Token i of the list has a rule that applies in the circumstance of key k, and sets its property (with !important).
define atCirc(ep, r, c, k) = k.atRule == ruleOf(ep, r, c).condition && k.modifier == detat(propModifier, ep, c, ruleOf(ep, r, c))
define setsDecl(ep, r, c, d, k) = anyDec(ep, r, ruleOf(ep, r, c), d, k.name)
define impDecl(ep, r, c, d, k) = impDec(ep, r, ruleOf(ep, r, c), d, k.name)
define effDecl(ep, r, c, d, k) = decl(ep, ruleOf(ep, r, c), effDec(ep, r, ruleOf(ep, r, c), d, k.name)).Value
pure hits(ep int, r *Merger, in string, i int, k propKey) bool
pure hitsImp(ep int, r *Merger, in string, i int, k propKey) bool
axiom hitsDef: forall ep int, r *Merger, in string, i int, k propKey {hits(ep, r, in, i, k)} ::
  hits(ep, r, in, i, k) <==> known(ep, r, tok(in, i)) && atCirc(ep, r, tok(in, i), k) && setsDecl(ep, r, tok(in, i), ndecl(ruleOf(ep, r, tok(in, i))), k)
axiom hitsImpDef: forall ep int, r *Merger, in string, i int, k propKey {hitsImp(ep, r, in, i, k)} ::
  hitsImp(ep, r, in, i, k) <==> known(ep, r, tok(in, i)) && atCirc(ep, r, tok(in, i), k) && impDecl(ep, r, tok(in, i), ndecl(ruleOf(ep, r, tok(in, i))), k)

# The last of the first i tokens that sets k (with !important), or -1; the value of the effective declaration.
pure lastSet(ep int, r *Merger, in string, i int, k propKey) int
pure lastImp(ep int, r *Merger, in string, i int, k propKey) int
pure effValue(ep int, r *Merger, in string, i int, k propKey) string
axiom lastStart: forall ep int, r *Merger, in string, k propKey {lastSet(ep, r, in, 0, k)} {lastImp(ep, r, in, 0, k)} ::
  lastSet(ep, r, in, 0, k) == -1 && lastImp(ep, r, in, 0, k) == -1
axiom lastSetStep: forall ep int, r *Merger, in string, i int, n int, k propKey {lastSet(ep, r, in, i, k), lastSet(ep, r, in, n, k)} ::
  0 <= i && n == i+1 ==> lastSet(ep, r, in, n, k) == ite(hits(ep, r, in, i, k), i, lastSet(ep, r, in, i, k))
axiom lastImpStep: forall ep int, r *Merger, in string, i int, n int, k propKey {lastImp(ep, r, in, i, k), lastImp(ep, r, in, n, k)} ::
  0 <= i && n == i+1 ==> lastImp(ep, r, in, n, k) == ite(hitsImp(ep, r, in, i, k), i, lastImp(ep, r, in, i, k))
axiom effValueStep: forall ep int, r *Merger, in string, i int, n int, k propKey {effValue(ep, r, in, i, k), effValue(ep, r, in, n, k)} ::
  0 <= i && n == i+1 ==> effValue(ep, r, in, n, k) ==
    ite(hits(ep, r, in, i, k) && (lastImp(ep, r, in, i, k) < 0 || hitsImp(ep, r, in, i, k)),
      effDecl(ep, r, tok(in, i), ndecl(ruleOf(ep, r, tok(in, i))), k), effValue(ep, r, in, i, k))

lemma lastSetRange uses i hint lastSet(ep, r, in, i-1, k): forall ep int, r *Merger, in string, i int, k propKey {lastSet(ep, r, in, i, k)} ::
  0 <= i ==> -1 <= lastSet(ep, r, in, i, k) && lastSet(ep, r, in, i, k) < i
lemma lastImpRange uses i hint lastImp(ep, r, in, i-1, k): forall ep int, r *Merger, in string, i int, k propKey {lastImp(ep, r, in, i, k)} ::
  0 <= i ==> -1 <= lastImp(ep, r, in, i, k) && lastImp(ep, r, in, i, k) < i
lemma impIsSet uses i hint lastSet(ep, r, in, i-1, k), lastImp(ep, r, in, i-1, k), hits(ep, r, in, i-1, k), hitsImp(ep, r, in, i-1, k): forall ep int, r *Merger, in string, i int, k propKey {lastImp(ep, r, in, i, k)} ::
  0 <= i ==> lastImp(ep, r, in, i, k) <= lastSet(ep, r, in, i, k)

# s is one of the first i tokens and has no rule.
pure unknownIn(ep int, r *Merger, in string, i int, s string) bool
axiom unknownStart: forall ep int, r *Merger, in string, s string {unknownIn(ep, r, in, 0, s)} :: !unknownIn(ep, r, in, 0, s)
axiom unknownStep: forall ep int, r *Merger, in string, i int, n int, s string {unknownIn(ep, r, in, i, s), unknownIn(ep, r, in, n, s)} ::
  0 <= i && n == i+1 ==> (unknownIn(ep, r, in, n, s) <==> unknownIn(ep, r, in, i, s) || !known(ep, r, tok(in, i)) && s == tok(in, i))

lemma unknownMeaning uses i hint unknownIn(ep, r, in, i-1, s): forall ep int, r *Merger, in string, i int, s string {unknownIn(ep, r, in, i, s)} ::
  0 <= i ==> (unknownIn(ep, r, in, i, s) <==> !known(ep, r, s) && mem(toks(in), 0, i, s))

# A custom property is in use: the least set that is closed under the uses of effective declarations.
define isSet(ep, r, in, k) = lastSet(ep, r, in, ntok(in), k) >= 0
define usesVar(ep, r, in, k, v) = uses(effValue(ep, r, in, ntok(in), k), v)
pure inUse(ep int, r *Merger, in string, v string) bool
axiom inUseClosed: forall ep int, r *Merger, in string, k propKey, v string {usesVar(ep, r, in, k, v)} ::
  isSet(ep, r, in, k) && usesVar(ep, r, in, k, v) && (!custom(k.name) || inUse(ep, r, in, k.name)) ==> inUse(ep, r, in, v)
pure closed(ep int, r *Merger, in string, a arr[string], lo int, hi int) bool
axiom closedDef: forall ep int, r *Merger, in string, a arr[string], lo int, hi int {closed(ep, r, in, a, lo, hi)} ::
  closed(ep, r, in, a, lo, hi) <==> forall k propKey, v string {usesVar(ep, r, in, k, v)} :: isSet(ep, r, in, k) && usesVar(ep, r, in, k, v) &&
    (!custom(k.name) || mem(a, lo, hi, k.name)) ==> mem(a, lo, hi, v)
axiom inUseLeast: forall ep int, r *Merger, in string, a arr[string], lo int, hi int, v string {closed(ep, r, in, a, lo, hi), inUse(ep, r, in, v)} ::
  closed(ep, r, in, a, lo, hi) && inUse(ep, r, in, v) ==> mem(a, lo, hi, v)

# --- merging -----------------------------------------------------------------------------------------------------------

ghost merge.Cache.dom set[string]
ghost merge.Cache.val arr[string, string]
extern (Cache).Get recv c (key string) (v string, ok bool)
  requires c != nil
  ensures ok <==> c.dom[key]
  ensures ok ==> v == c.val[key]
extern (Cache).Set recv c (key string, data string)
  requires c != nil
  assigns c.dom, c.val
  ensures c.dom == store(old(c.dom), key, true)
  ensures c.val == store(old(c.val), key, data)
extern (Cache).Clear recv c ()
  requires c != nil
  assigns c.dom, c.val
  ensures c.dom == emptyset(c.dom)

# The reasons to keep a name.
pure kept(ep int, r *Merger, in string, s string) bool
axiom keptDef: forall ep int, r *Merger, in string, s string {kept(ep, r, in, s)} :: kept(ep, r, in, s) <==>
  unknownIn(ep, r, in, ntok(in), s) ||
  (exists k propKey {lastSet(ep, r, in, ntok(in), k)} :: isSet(ep, r, in, k) && (!custom(k.name) || inUse(ep, r, in, k.name)) &&
    s == tok(in, lastSet(ep, r, in, ntok(in), k))) ||
  (exists k propKey {lastImp(ep, r, in, ntok(in), k)} :: lastImp(ep, r, in, ntok(in), k) >= 0 && s == tok(in, lastImp(ep, r, in, ntok(in), k)))

lemma keptIsName: forall ep int, r *Merger, in string, s string {kept(ep, r, in, s)} :: kept(ep, r, in, s) ==> mem(toks(in), 0, ntok(in), s)

# The results allowed for a list (of at least two names).
heapfn keepsOrder(ep int, r *Merger) bool = r.keepSort
define inList(in, s) = mem(toks(in), 0, ntok(in), s)
define okNames(in, out) = canonical(out) && forall s string {mem(toks(out), 0, ntok(out), s)} :: inList(out, s) ==> inList(in, s)
define okUnknown(ep, r, in, out) = forall s string {unknownIn(ep, r, in, ntok(in), s)} :: unknownIn(ep, r, in, ntok(in), s) ==> inList(out, s)
define okLast(ep, r, in, out) = forall k propKey {lastSet(ep, r, in, ntok(in), k)} :: isSet(ep, r, in, k) && !custom(k.name) ==> inList(out, tok(in, lastSet(ep, r, in, ntok(in), k)))
define okNoMore(ep, r, in, out) = forall s string {mem(toks(out), 0, ntok(out), s)} :: inList(out, s) ==> kept(ep, r, in, s)
define okImportant(ep, r, in, out) = forall k propKey {lastImp(ep, r, in, ntok(in), k)} :: lastImp(ep, r, in, ntok(in), k) >= 0 ==> inList(out, tok(in, lastImp(ep, r, in, ntok(in), k)))
define okCustom(ep, r, in, out) = forall k propKey {lastSet(ep, r, in, ntok(in), k)} :: isSet(ep, r, in, k) && custom(k.name) && inUse(ep, r, in, k.name) ==>
  inList(out, tok(in, lastSet(ep, r, in, ntok(in), k)))
define okOrder(ep, r, in, out) = forall i int, j int {tok(out, i), tok(out, j)} :: 0 <= i && i < j && j < ntok(out) ==>
  ite(keepsOrder(ep, r), lastAt(in, tok(out, i)) < lastAt(in, tok(out, j)), tok(out, i) < tok(out, j))
pure resultOK(ep int, r *Merger, in string, out string) bool
axiom resultDef: forall ep int, r *Merger, in string, out string {resultOK(ep, r, in, out)} :: resultOK(ep, r, in, out) <==>
  ite(ntok(in) < 2, out == in, okNames(in, out) && okUnknown(ep, r, in, out) && okLast(ep, r, in, out) && okNoMore(ep, r, in, out) &&
    okImportant(ep, r, in, out) && okCustom(ep, r, in, out) && okOrder(ep, r, in, out))
define cacheOK(r) = forall key string {r.cache.dom[key]} :: r.cache.dom[key] ==> resultOK(EPOCH, r, key, r.cache.val[key])

func (Merger).Merge recv r (in) (out)
  requires r != nil && rulesOK(r) && (r.cache != nil ==> cacheOK(r))
  assigns r.cache.dom, r.cache.val
  ensures [C01, C08, C09] ite(ntok(in) < 2, out == in, okNames(in, out))
  ensures [C02, C08, C09] ntok(in) >= 2 ==> okUnknown(EPOCH, r, in, out)
  ensures [C03, C12, C08, C09] ntok(in) >= 2 ==> okLast(EPOCH, r, in, out)
  ensures [C04, C12, C08, C09] ntok(in) >= 2 ==> okNoMore(EPOCH, r, in, out)
  ensures [C05, C08, C09] ntok(in) >= 2 ==> okImportant(EPOCH, r, in, out)
  ensures [C06, C08, C09] ntok(in) >= 2 ==> okCustom(EPOCH, r, in, out) && okNoMore(EPOCH, r, in, out)
  ensures [C07, C08, C09] ntok(in) >= 2 ==> okOrder(EPOCH, r, in, out)
  ensures [C08] resultOK(EPOCH, r, in, out)
  ensures [C09] resultOK(EPOCH, r, in, out) && (r.cache != nil ==> cacheOK(r))

define doneName(r, in, i, names, j, k) = atCirc(EPOCH, r, tok(in, i), k) && mem(names[0:j], k.name)
define curName(r, in, i, names, j, k) = atCirc(EPOCH, r, tok(in, i), k) && k.name == names[j]

# the class list
template (Merger).Merge(K phi []string, r param *Merger, in param string, i/split over []string):
  (forall s string {mem(K, s)} {unknownIn(EPOCH, r, in, i, s)} :: mem(K, s) <==> unknownIn(EPOCH, r, in, i, s))
template (Merger).Merge(M map[propKey]string, r param *Merger, in param string, i/split over []string):
  (forall k propKey {has(M, k)} {lastSet(EPOCH, r, in, i, k)} :: has(M, k) <==> !custom(k.name) && lastSet(EPOCH, r, in, i, k) >= 0) &&
  (forall k propKey {has(M, k)} {lastSet(EPOCH, r, in, i, k)} :: has(M, k) <==> custom(k.name) && lastSet(EPOCH, r, in, i, k) >= 0) &&
  (forall k propKey {M[k]} :: has(M, k) ==> M[k] == tok(in, lastSet(EPOCH, r, in, i, k))) &&
  (forall k propKey {has(M, k)} {lastImp(EPOCH, r, in, i, k)} :: has(M, k) <==> lastImp(EPOCH, r, in, i, k) >= 0) &&
  (forall k propKey {M[k]} :: has(M, k) ==> M[k] == tok(in, lastImp(EPOCH, r, in, i, k)))
template (Merger).Merge(CV map[propKey][]string, r param *Merger, in param string, i/split over []string):
  (forall k propKey {has(CV, k)} {lastSet(EPOCH, r, in, i, k)} :: has(CV, k) <==> lastSet(EPOCH, r, in, i, k) >= 0) &&
  (forall k propKey {CV[k]} :: has(CV, k) ==> allocated(CV[k])) &&
  (forall k propKey, v string {mem(CV[k], v)} :: has(CV, k) ==> (mem(CV[k], v) <==> uses(effValue(EPOCH, r, in, i, k), v)))
template (Merger).Merge(CV map[propKey][]string, K []string): forall k propKey {CV[k]} :: has(CV, k) ==> base(CV[k]) != base(K)

# the properties that a class sets
template (Merger).Merge(M map[propKey]string, r param *Merger, in param string, j/names over []string, i/split over []string):
  (forall k propKey {has(M, k)} {lastSet(EPOCH, r, in, i, k)} {lastSet(EPOCH, r, in, i+1, k)} :: has(M, k) <==>
    !custom(k.name) && ite(doneName(r, in, i, names, j, k), lastSet(EPOCH, r, in, i+1, k), lastSet(EPOCH, r, in, i, k)) >= 0) &&
  (forall k propKey {has(M, k)} {lastSet(EPOCH, r, in, i, k)} {lastSet(EPOCH, r, in, i+1, k)} :: has(M, k) <==>
    custom(k.name) && ite(doneName(r, in, i, names, j, k), lastSet(EPOCH, r, in, i+1, k), lastSet(EPOCH, r, in, i, k)) >= 0) &&
  (forall k propKey {M[k]} :: has(M, k) ==>
    M[k] == ite(doneName(r, in, i, names, j, k), tok(in, lastSet(EPOCH, r, in, i+1, k)), tok(in, lastSet(EPOCH, r, in, i, k))))
template (Merger).Merge(M map[propKey]string, r param *Merger, in param string, j/names over []string, i/split over []string):
  (forall k propKey {has(M, k)} {lastImp(EPOCH, r, in, i, k)} {lastImp(EPOCH, r, in, i+1, k)} :: has(M, k) <==>
    ite(doneName(r, in, i, names, j, k), lastImp(EPOCH, r, in, i+1, k), lastImp(EPOCH, r, in, i, k)) >= 0) &&
  (forall k propKey {M[k]} :: has(M, k) ==>
    M[k] == ite(doneName(r, in, i, names, j, k), tok(in, lastImp(EPOCH, r, in, i+1, k)), tok(in, lastImp(EPOCH, r, in, i, k))))
template (Merger).Merge(CV map[propKey][]string, r param *Merger, in param string, j/names over []string, i/split over []string):
  (forall k propKey {has(CV, k)} {lastSet(EPOCH, r, in, i, k)} {lastSet(EPOCH, r, in, i+1, k)} :: has(CV, k) <==>
    ite(doneName(r, in, i, names, j, k), lastSet(EPOCH, r, in, i+1, k), lastSet(EPOCH, r, in, i, k)) >= 0) &&
  (forall k propKey, v string {mem(CV[k], v)} :: has(CV, k) ==> (mem(CV[k], v) <==>
    ite(doneName(r, in, i, names, j, k), uses(effValue(EPOCH, r, in, i+1, k), v), uses(effValue(EPOCH, r, in, i, k), v))))

# the declarations of a class, for one property
define updated(r, in, i, d, k) = ite(lastImp(EPOCH, r, in, i, k) >= 0, impDecl(EPOCH, r, tok(in, i), d, k), setsDecl(EPOCH, r, tok(in, i), d, k))
template (Merger).Merge(M map[propKey]string, r param *Merger, in param string, d/ds over []cascadia.CssDeclaration, j/names over []string, i/split over []string):
  (forall k propKey {has(M, k)} {lastSet(EPOCH, r, in, i, k)} {lastSet(EPOCH, r, in, i+1, k)} :: has(M, k) <==>
    !custom(k.name) && ite(doneName(r, in, i, names, j, k), lastSet(EPOCH, r, in, i+1, k), lastSet(EPOCH, r, in, i, k)) >= 0) &&
  (forall k propKey {has(M, k)} {lastSet(EPOCH, r, in, i, k)} {lastSet(EPOCH, r, in, i+1, k)} :: has(M, k) <==>
    custom(k.name) && ite(doneName(r, in, i, names, j, k), lastSet(EPOCH, r, in, i+1, k), lastSet(EPOCH, r, in, i, k)) >= 0) &&
  (forall k propKey {M[k]} :: has(M, k) ==>
    M[k] == ite(doneName(r, in, i, names, j, k), tok(in, lastSet(EPOCH, r, in, i+1, k)), tok(in, lastSet(EPOCH, r, in, i, k)))) &&
  (forall k propKey {has(M, k)} {lastImp(EPOCH, r, in, i, k)} {lastImp(EPOCH, r, in, i+1, k)} :: has(M, k) <==>
    ite(curName(r, in, i, names, j, k), lastImp(EPOCH, r, in, i, k) >= 0 || impDecl(EPOCH, r, tok(in, i), d, k),
      ite(doneName(r, in, i, names, j, k), lastImp(EPOCH, r, in, i+1, k), lastImp(EPOCH, r, in, i, k)) >= 0)) &&
  (forall k propKey {M[k]} :: has(M, k) ==>
    M[k] == ite(curName(r, in, i, names, j, k), ite(impDecl(EPOCH, r, tok(in, i), d, k), tok(in, i), tok(in, lastImp(EPOCH, r, in, i, k))),
      ite(doneName(r, in, i, names, j, k), tok(in, lastImp(EPOCH, r, in, i+1, k)), tok(in, lastImp(EPOCH, r, in, i, k)))))
template (Merger).Merge(CV map[propKey][]string, r param *Merger, in param string, d/ds over []cascadia.CssDeclaration, j/names over []string, i/split over []string):
  (forall k propKey {has(CV, k)} {lastSet(EPOCH, r, in, i, k)} {lastSet(EPOCH, r, in, i+1, k)} :: has(CV, k) <==>
    ite(curName(r, in, i, names, j, k), lastSet(EPOCH, r, in, i, k) >= 0 || updated(r, in, i, d, k),
      ite(doneName(r, in, i, names, j, k), lastSet(EPOCH, r, in, i+1, k), lastSet(EPOCH, r, in, i, k)) >= 0)) &&
  (forall k propKey, v string {mem(CV[k], v)} :: has(CV, k) ==> (mem(CV[k], v) <==>
    ite(curName(r, in, i, names, j, k),
      ite(updated(r, in, i, d, k), uses(effDecl(EPOCH, r, tok(in, i), d, k), v), uses(effValue(EPOCH, r, in, i, k), v)),
      ite(doneName(r, in, i, names, j, k), uses(effValue(EPOCH, r, in, i+1, k), v), uses(effValue(EPOCH, r, in, i, k), v)))))

# the classes to keep
template (Merger).Merge(K phi []string, r param *Merger, in param string):
  (forall s string {mem(K, s)} :: mem(K, s) ==> kept(EPOCH, r, in, s)) &&
  (forall s string {unknownIn(EPOCH, r, in, ntok(in), s)} :: unknownIn(EPOCH, r, in, ntok(in), s) ==> mem(K, s))
template (Merger).Merge(K phi []string, m/M visited map[propKey]string):
  (forall k propKey {m[k]} :: m[k] ==> mem(K, M[k]))
template (Merger).Merge(K phi []string, M map[propKey]string):
  (forall k propKey {has(M, k)} :: has(M, k) ==> mem(K, M[k]))
template (Merger).Merge(K phi []string, U []string, m/M visited map[propKey]string):
  (forall k propKey {m[k]} :: m[k] && mem(U, k.name) ==> mem(K, M[k]))

# the custom properties in use
template (Merger).Merge(CV map[propKey][]string, r param *Merger, in param string):
  (forall k propKey {has(CV, k)} {lastSet(EPOCH, r, in, ntok(in), k)} :: has(CV, k) <==> lastSet(EPOCH, r, in, ntok(in), k) >= 0) &&
  (forall k propKey, v string {mem(CV[k], v)} {usesVar(EPOCH, r, in, k, v)} :: has(CV, k) ==> (mem(CV[k], v) <==> usesVar(EPOCH, r, in, k, v)))
template (Merger).Merge(U phi []string, r param *Merger, in param string):
  (forall v string {mem(U, v)} :: mem(U, v) ==> inUse(EPOCH, r, in, v)) &&
  (forall k propKey, v string {usesVar(EPOCH, r, in, k, v)} :: isSet(EPOCH, r, in, k) && !custom(k.name) && usesVar(EPOCH, r, in, k, v) ==> mem(U, v))
template (Merger).Merge(U []string, m/M visited map[propKey]string, r param *Merger, in param string):
  closed(EPOCH, r, in, elems(U), from(U), to(U))
template (Merger).Merge(U phi []string, m/CV visited map[propKey][]string, r param *Merger, in param string):
  (forall k propKey, v string {m[k], usesVar(EPOCH, r, in, k, v)} :: m[k] && !custom(k.name) && usesVar(EPOCH, r, in, k, v) ==> mem(U, v))
template (Merger).Merge(U phi []string, i int, r param *Merger, in param string):
  (forall q int, k propKey, v string {elems(U)[q], usesVar(EPOCH, r, in, k, v)} :: from(U) <= q && q < from(U)+i && k.name == elems(U)[q] &&
    isSet(EPOCH, r, in, k) && usesVar(EPOCH, r, in, k, v) ==> mem(U, v))
template (Merger).Merge(U phi []string, i int, m/CV visited map[propKey][]string, r param *Merger, in param string):
  (forall k propKey, v string {m[k], usesVar(EPOCH, r, in, k, v)} :: m[k] && k.name == U[i] && usesVar(EPOCH, r, in, k, v) ==> mem(U, v))
template (Merger).Merge(U/V/A prior []string):
  len(V) <= len(U) &&
  (forall q int {U[q]} :: 0 <= q && q < len(V) ==> U[q] == A[from(V)+q]) &&
  (forall v string {mem(A, from(V), to(V), v)} :: mem(A, from(V), to(V), v) ==> mem(U, v))
template (Merger).Merge(U phi []string, j/vars over []string):
  (forall q int {elems(vars)[q]} :: from(vars) <= q && q < from(vars)+j ==> mem(U, elems(vars)[q]))
template (Merger).Merge(CV map[propKey][]string): forall k propKey {CV[k]} :: has(CV, k) ==> allocated(CV[k])

property C07: (Merger).Merge
property C01: (Merger).Merge
property C02: (Merger).Merge
property C03: (Merger).Merge
property C04: (Merger).Merge
property C05: (Merger).Merge
property C06: (Merger).Merge
property C08: (Merger).Merge
property C09: (Merger).Merge
property C10: (Merger).Merge
property C12: (Merger).Merge

# C12: a class that sets a property is kept if the classes after it do not apply in the circumstance in which it does.
lemma apartLast local uses n hint lastSet(ep, r, in, n-1, k), hits(ep, r, in, n-1, k): forall ep int, r *Merger, in string, i int, n int, k propKey {hits(ep, r, in, i, k), lastSet(ep, r, in, n, k)} ::
  0 <= i && i < n && hits(ep, r, in, i, k) && (forall j int {tok(in, j)} :: i < j && j < n ==> !atCirc(ep, r, tok(in, j), k)) ==> lastSet(ep, r, in, n, k) == i
lemma apartKept hint lastSet(ep, r, in, ntok(in), k): forall ep int, r *Merger, in string, out string, i int, k propKey ::
  ntok(in) >= 2 && okLast(ep, r, in, out) && 0 <= i && i < ntok(in) && hits(ep, r, in, i, k) && !custom(k.name) &&
  (forall j int {tok(in, j)} :: i < j && j < ntok(in) ==> !atCirc(ep, r, tok(in, j), k)) ==> inList(out, tok(in, i))
