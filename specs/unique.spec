# What a result is, the list and the rules decide (C08).
package merge

lemma keptMembers: forall ep int, r *Merger, in string, out string, s string {resultOK(ep, r, in, out), mem(toks(out), 0, ntok(out), s)} {resultOK(ep, r, in, out), kept(ep, r, in, s)} ::
  ntok(in) >= 2 && resultOK(ep, r, in, out) ==> (inList(out, s) <==> kept(ep, r, in, s))

# The first n names of two results for one list are the same.
pure agree(a string, b string, n int) int
lemma sameNames uses n hint agree(a, b, n-1), agree(b, a, n-1), tok(a, n-1), tok(b, n-1), kept(ep, r, in, tok(a, n-1)), kept(ep, r, in, tok(b, n-1)):
  forall ep int, r *Merger, in string, a string, b string, n int {resultOK(ep, r, in, a), resultOK(ep, r, in, b), agree(a, b, n)} ::
  ntok(in) >= 2 && resultOK(ep, r, in, a) && resultOK(ep, r, in, b) && 0 <= n && n <= ntok(a) && n <= ntok(b) ==>
    forall q int {tok(a, q)} {tok(b, q)} :: 0 <= q && q < n ==> tok(a, q) == tok(b, q)
lemma sameLength hint agree(a, b, ntok(a)), tok(b, ntok(a)), kept(ep, r, in, tok(b, ntok(a))): forall ep int, r *Merger, in string, a string, b string {resultOK(ep, r, in, a), resultOK(ep, r, in, b)} ::
  ntok(in) >= 2 && resultOK(ep, r, in, a) && resultOK(ep, r, in, b) ==> ntok(b) <= ntok(a)
# Assumed: a joined text is decided by its parts.
axiom joinedSame: forall a arr[string], lo int, hi int, b arr[string], l2 int, h2 int {joined(a, lo, hi), joined(b, l2, h2)} ::
  hi - lo == h2 - l2 && (forall q int {a[q]} {b[l2+q-lo]} :: lo <= q && q < hi ==> a[q] == b[l2+q-lo]) ==> joined(a, lo, hi) == joined(b, l2, h2)
lemma sameResult local hint agree(a, b, ntok(a)), joined(toks(a), 0, ntok(a)), joined(toks(b), 0, ntok(b)): forall ep int, r *Merger, in string, a string, b string {resultOK(ep, r, in, a), resultOK(ep, r, in, b)} ::
  resultOK(ep, r, in, a) && resultOK(ep, r, in, b) ==> a == b

# Merging a result again gives the same result, with order keeping (C07).
lemma keptToken: forall ep int, r *Merger, a string, i int, b string, j int, k propKey {hits(ep, r, a, i, k), hits(ep, r, b, j, k)} {hitsImp(ep, r, a, i, k), hitsImp(ep, r, b, j, k)} ::
  tok(a, i) == tok(b, j) ==> (hits(ep, r, a, i, k) <==> hits(ep, r, b, j, k)) && (hitsImp(ep, r, a, i, k) <==> hitsImp(ep, r, b, j, k))
lemma lastSetMeaning local uses i hint lastSet(ep, r, in, i-1, k): forall ep int, r *Merger, in string, i int, k propKey {lastSet(ep, r, in, i, k)} ::
  0 <= i ==> (lastSet(ep, r, in, i, k) >= 0 ==> hits(ep, r, in, lastSet(ep, r, in, i, k), k)) &&
    (forall j int {hits(ep, r, in, j, k)} :: lastSet(ep, r, in, i, k) < j && 0 <= j && j < i ==> !hits(ep, r, in, j, k))
lemma lastImpMeaning local uses i hint lastImp(ep, r, in, i-1, k): forall ep int, r *Merger, in string, i int, k propKey {lastImp(ep, r, in, i, k)} ::
  0 <= i ==> (lastImp(ep, r, in, i, k) >= 0 ==> hitsImp(ep, r, in, lastImp(ep, r, in, i, k), k)) &&
    (forall j int {hitsImp(ep, r, in, j, k)} :: lastImp(ep, r, in, i, k) < j && 0 <= j && j < i ==> !hitsImp(ep, r, in, j, k))
lemma effMeaning local uses i hint lastSet(ep, r, in, i-1, k), lastImp(ep, r, in, i-1, k), effValue(ep, r, in, i-1, k), hits(ep, r, in, i-1, k), hitsImp(ep, r, in, i-1, k):
  forall ep int, r *Merger, in string, i int, k propKey {effValue(ep, r, in, i, k)} ::
  0 <= i && lastSet(ep, r, in, i, k) >= 0 ==> effValue(ep, r, in, i, k) ==
    ite(lastImp(ep, r, in, i, k) >= 0, effDecl(ep, r, tok(in, lastImp(ep, r, in, i, k)), ndecl(ruleOf(ep, r, tok(in, lastImp(ep, r, in, i, k)))), k),
      effDecl(ep, r, tok(in, lastSet(ep, r, in, i, k)), ndecl(ruleOf(ep, r, tok(in, lastSet(ep, r, in, i, k)))), k))
# o is a result for the list, in the order of the list.
pure again(ep int, r *Merger, in string, o string) bool
axiom againDef local: forall ep int, r *Merger, in string, o string {again(ep, r, in, o)} ::
  again(ep, r, in, o) <==> ntok(in) >= 2 && keepsOrder(ep, r) && resultOK(ep, r, in, o)
lemma againOnce local hint lastAt(o, tok(o, j)), lastAt(in, tok(o, j)): forall ep int, r *Merger, in string, o string, j int {again(ep, r, in, o), tok(o, j)} ::
  again(ep, r, in, o) && 0 <= j && j < ntok(o) ==> lastAt(o, tok(o, j)) == j
lemma againSet local hint lastSet(ep, r, in, ntok(in), k), lastSet(ep, r, o, ntok(o), k), lastAt(in, tok(in, lastSet(ep, r, in, ntok(in), k))), lastAt(o, tok(in, lastSet(ep, r, in, ntok(in), k))),
  hits(ep, r, in, lastAt(in, tok(in, lastSet(ep, r, in, ntok(in), k))), k), hits(ep, r, o, lastAt(o, tok(in, lastSet(ep, r, in, ntok(in), k))), k),
  lastAt(in, tok(o, lastSet(ep, r, o, ntok(o), k))), hits(ep, r, in, lastAt(in, tok(o, lastSet(ep, r, o, ntok(o), k))), k):
  forall ep int, r *Merger, in string, o string, k propKey {again(ep, r, in, o), lastSet(ep, r, in, ntok(in), k)} {again(ep, r, in, o), lastSet(ep, r, o, ntok(o), k)} ::
  again(ep, r, in, o) && isSet(ep, r, in, k) && inList(o, tok(in, lastSet(ep, r, in, ntok(in), k))) ==>
    isSet(ep, r, o, k) && tok(o, lastSet(ep, r, o, ntok(o), k)) == tok(in, lastSet(ep, r, in, ntok(in), k))
lemma againImp local hint lastImp(ep, r, in, ntok(in), k), lastImp(ep, r, o, ntok(o), k), lastAt(in, tok(in, lastImp(ep, r, in, ntok(in), k))), lastAt(o, tok(in, lastImp(ep, r, in, ntok(in), k))),
  hitsImp(ep, r, in, lastAt(in, tok(in, lastImp(ep, r, in, ntok(in), k))), k), hitsImp(ep, r, o, lastAt(o, tok(in, lastImp(ep, r, in, ntok(in), k))), k),
  lastAt(in, tok(o, lastImp(ep, r, o, ntok(o), k))), hitsImp(ep, r, in, lastAt(in, tok(o, lastImp(ep, r, o, ntok(o), k))), k):
  forall ep int, r *Merger, in string, o string, k propKey {again(ep, r, in, o), lastImp(ep, r, in, ntok(in), k)} {again(ep, r, in, o), lastImp(ep, r, o, ntok(o), k)} ::
  again(ep, r, in, o) ==> (lastImp(ep, r, in, ntok(in), k) >= 0 <==> lastImp(ep, r, o, ntok(o), k) >= 0) &&
    (lastImp(ep, r, in, ntok(in), k) >= 0 ==> tok(o, lastImp(ep, r, o, ntok(o), k)) == tok(in, lastImp(ep, r, in, ntok(in), k)))
lemma againEff local hint lastSet(ep, r, in, ntok(in), k), lastImp(ep, r, in, ntok(in), k), lastSet(ep, r, o, ntok(o), k), lastImp(ep, r, o, ntok(o), k), effValue(ep, r, in, ntok(in), k), effValue(ep, r, o, ntok(o), k):
  forall ep int, r *Merger, in string, o string, k propKey {again(ep, r, in, o), effValue(ep, r, in, ntok(in), k)} ::
  again(ep, r, in, o) && isSet(ep, r, in, k) && (!custom(k.name) || inUse(ep, r, in, k.name)) ==>
    isSet(ep, r, o, k) && effValue(ep, r, o, ntok(o), k) == effValue(ep, r, in, ntok(in), k)
# inUse is the least set closed under uses, so it is in each set that is.
axiom inUseInduction local: forall ep int, r *Merger, a string, b string {again(ep, r, a, b)} ::
  (forall k propKey, v string {usesVar(ep, r, a, k, v)} :: isSet(ep, r, a, k) && usesVar(ep, r, a, k, v) &&
    (!custom(k.name) || inUse(ep, r, a, k.name) && inUse(ep, r, b, k.name)) ==> inUse(ep, r, b, v)) ==>
  (forall v string {inUse(ep, r, a, v)} {inUse(ep, r, b, v)} :: inUse(ep, r, a, v) ==> inUse(ep, r, b, v))
lemma againUse local: forall ep int, r *Merger, in string, o string, v string {again(ep, r, in, o), inUse(ep, r, in, v)} {again(ep, r, in, o), inUse(ep, r, o, v)} ::
  again(ep, r, in, o) && inUse(ep, r, in, v) ==> inUse(ep, r, o, v)
lemma againKept local: forall ep int, r *Merger, in string, o string, s string {again(ep, r, in, o), kept(ep, r, o, s)} ::
  again(ep, r, in, o) && inList(o, s) ==> kept(ep, r, o, s)
lemma againResult local hint again(ep, r, in, o), resultOK(ep, r, o, o): forall ep int, r *Merger, in string, o string, p string {resultOK(ep, r, in, o), resultOK(ep, r, o, p)} ::
  keepsOrder(ep, r) && resultOK(ep, r, in, o) ==> resultOK(ep, r, o, o)
lemma sameAgain hint again(ep, r, in, o), resultOK(ep, r, o, o), resultOK(ep, r, o, p): forall ep int, r *Merger, in string, o string, p string ::
  keepsOrder(ep, r) && resultOK(ep, r, in, o) && resultOK(ep, r, o, p) ==> p == o
