# Specificities (C17).
package cascadia
transparent cascadia.Specificity

define lessS(a, b) = a[0] < b[0] || a[0] == b[0] && (a[1] < b[1] || a[1] == b[1] && a[2] < b[2])
define addS(a, b) = mk(Specificity, a[0]+b[0], a[1]+b[1], a[2]+b[2])
define S(a, b, c) = mk(Specificity, a, b, c)

lemma lessIrreflexive: forall a Specificity :: !lessS(a, a)
lemma lessTransitive: forall a Specificity, b Specificity, c Specificity :: lessS(a, b) && lessS(b, c) ==> lessS(a, c)
lemma lessTotal: forall a Specificity, b Specificity :: lessS(a, b) || lessS(b, a) || a == b

func (Specificity).Less recv s (other Specificity) (r)
  ensures [C17 order] r <==> lessS(s, other)

func (Specificity).Add recv s (other Specificity) (r)
  ensures [C17 sum] r == addS(s, other)

# The specificity of an element of a list of selectors.
func (Sel).Specificity recv s () (r)
  requires s != nil
  decreases height(s)
  deterministic

define specAt(x, ep) = detat(Sel.Specificity, ep, x)

# The sum of the specificities of a[lo..hi).
pure csum(a arr[Sel], lo int, hi int, ep int) Specificity
axiom csumEmpty: forall a arr[Sel], lo int, ep int {csum(a, lo, lo, ep)} :: csum(a, lo, lo, ep) == S(0, 0, 0)
axiom csumStep: forall a arr[Sel], lo int, hi int, n int, ep int {csum(a, lo, hi, ep), csum(a, lo, n, ep)} ::
  lo <= hi && n == hi+1 ==> csum(a, lo, n, ep) == addS(csum(a, lo, hi, ep), specAt(a[hi], ep))

# m is the greatest specificity of a[lo..hi), or (0,0,0) if there is none.
define isMax(m, a, lo, hi, ep) =
  (forall k int {a[k]} :: lo <= k && k < hi ==> !lessS(m, specAt(a[k], ep))) &&
  (m == S(0, 0, 0) || (exists k int {a[k]} :: lo <= k && k < hi && m == specAt(a[k], ep)))

func (TagSelector).Specificity recv s () (r)
  ensures [C17 simple] r == S(0, 0, 1)
func (ClassSelector).Specificity recv s () (r)
  ensures [C17 simple] r == S(0, 1, 0)
func (IdSelector).Specificity recv s () (r)
  ensures [C17 simple] r == S(1, 0, 0)
func (AttrSelector).Specificity recv s () (r)
  ensures [C17 simple] r == S(0, 1, 0)
func (abstractPseudoClass).Specificity recv s () (r)
  ensures [C17 simple] r == S(0, 1, 0)

func (CompoundSelector).Specificity recv s () (r)
  ensures [C17 compound] r == addS(csum(elems(s.selectors), off(s.selectors), to(s.selectors), EPOCH),
                                   ite(s.pseudoElement != "", S(0, 0, 1), S(0, 0, 0)))
func (CombinedSelector).Specificity recv s () (r)
  ensures [C17 combined] r == addS(specAt(s.first, EPOCH), ite(s.second != nil, specAt(s.second, EPOCH), S(0, 0, 0)))
func (IsPseudoClassSelector).Specificity recv s () (r)
  ensures [C17 list] isMax(r, elems(s.match), off(s.match), to(s.match), EPOCH)
func (RelativePseudoClassSelector).Specificity recv s () (r)
  ensures [C17 list] isMax(r, elems(s.match), off(s.match), to(s.match), EPOCH)
func (WherePseudoClassSelector).Specificity recv s () (r)
  ensures [C17 where] r == S(0, 0, 0)

template (CompoundSelector).Specificity(v Specificity, i/s over []Sel): v == csum(elems(s), off(s), off(s)+i, EPOCH)
template (CompoundSelector).Specificity(v Specificity, c param CompoundSelector, i/s over []Sel):
  v == addS(csum(elems(s), off(s), off(s)+i, EPOCH), ite(c.pseudoElement == "", S(0, 0, 0), S(0, 0, 1)))
template (Specificity).Less(i int, a param Specificity, b param Specificity): 0 <= i && i <= 3 && (0 < i ==> a[0] == b[0]) && (1 < i ==> a[1] == b[1]) && (2 < i ==> a[2] == b[2])
template (Specificity).Less(i int): i <= 2
template cascadia.ALL(v Specificity, i/s over []Sel): isMax(v, elems(s), off(s), off(s)+i, EPOCH)

property C17: (Specificity).Less, (Specificity).Add, (TagSelector).Specificity, (ClassSelector).Specificity,
  (IdSelector).Specificity, (AttrSelector).Specificity, (abstractPseudoClass).Specificity, (CompoundSelector).Specificity,
  (CombinedSelector).Specificity, (IsPseudoClassSelector).Specificity, (RelativePseudoClassSelector).Specificity,
  (WherePseudoClassSelector).Specificity, (Sel).Specificity

transparent cascadia.TagSelector
transparent cascadia.ClassSelector
transparent cascadia.IdSelector
transparent cascadia.AttrSelector
transparent cascadia.CompoundSelector
transparent cascadia.CombinedSelector
transparent cascadia.IsPseudoClassSelector
transparent cascadia.WherePseudoClassSelector
transparent cascadia.RelativePseudoClassSelector
