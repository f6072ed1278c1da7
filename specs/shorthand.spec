# The shorthand table (C16).
package merge

heapfn subOf(ep int, m map[string]props.Property, s string, x string) bool = mem(m[s].property.Computed, x)
heapfn shortOf(ep int, m map[string]props.Property, s string) bool = has(m, s) && !mem(m[s].property.Computed, s)
# c is a longhand that s stands for, following nested shorthands to the end.
pure expands(ep int, m map[string]props.Property, s string, c string) bool
axiom expandsDef: forall ep int, m map[string]props.Property, s string, c string {expands(ep, m, s, c), shortOf(ep, m, s)} ::
  expands(ep, m, s, c) <==> ite(shortOf(ep, m, s), exists x string {subOf(ep, m, s, x), expands(ep, m, x, c)} :: subOf(ep, m, s, x) && expands(ep, m, x, c), c == s)
axiom expandsSelf: forall ep int, m map[string]props.Property, s string {shortOf(ep, m, s)} :: !shortOf(ep, m, s) ==> expands(ep, m, s, s)
axiom expandsIf: forall ep int, m map[string]props.Property, s string, x string, c string {subOf(ep, m, s, x), expands(ep, m, x, c)} ::
  shortOf(ep, m, s) && subOf(ep, m, s, x) && expands(ep, m, x, c) ==> expands(ep, m, s, c)
pure anyExp(ep int, m map[string]props.Property, a arr[string], lo int, hi int, c string) bool
axiom anyExpIf: forall ep int, m map[string]props.Property, a arr[string], lo int, hi int, x string, c string {anyExp(ep, m, a, lo, hi, c), mem(a, lo, hi, x), expands(ep, m, x, c)} ::
  mem(a, lo, hi, x) && expands(ep, m, x, c) ==> anyExp(ep, m, a, lo, hi, c)
axiom anyExpOnlyIf: forall ep int, m map[string]props.Property, a arr[string], lo int, hi int, c string {anyExp(ep, m, a, lo, hi, c)} ::
  anyExp(ep, m, a, lo, hi, c) ==> exists x string {mem(a, lo, hi, x), expands(ep, m, x, c)} :: mem(a, lo, hi, x) && expands(ep, m, x, c)
heapfn expOf(ep int, m map[string]props.Property, s string, c string) bool = anyExp(ep, m, elems(m[s].property.Computed), from(m[s].property.Computed), to(m[s].property.Computed), c)

# r is what expandShorthands returned for m; m is what GetProperties returned.
pure expanded(ep int, m map[string]props.Property, r map[string]props.Property) bool
pure isTable(m map[string]props.Property) bool
func expandShorthands (properties) (r)
  requires properties != nil
  ensures r != nil && fresh(r)
  defines expanded(EPOCH, properties, r)
  ensures [C16] forall s string {has(r, s)} :: has(r, s) <==> has(properties, s)
  ensures [C16] forall s string, c string {mem(r[s].property.Computed, c)} :: has(properties, s) && mem(r[s].property.Computed, c) ==>
    expOf(EPOCH, properties, s, c) && !shortOf(EPOCH, properties, c)
  ensures [C16] forall s string, c string {expOf(EPOCH, properties, s, c)} :: has(properties, s) && expOf(EPOCH, properties, s, c) ==> mem(r[s].property.Computed, c)
template expandShorthands (u []string, p props.Property, m param map[string]props.Property):
  (forall c string {anyExp(EPOCH, m, elems(u), from(u), to(u), c)} {anyExp(EPOCH, m, old(elems(p.property.Computed)), from(p.property.Computed), to(p.property.Computed), c)} ::
    anyExp(EPOCH, m, elems(u), from(u), to(u), c) ==> anyExp(EPOCH, m, old(elems(p.property.Computed)), from(p.property.Computed), to(p.property.Computed), c)) &&
  (forall c string {anyExp(EPOCH, m, elems(u), from(u), to(u), c)} {anyExp(EPOCH, m, old(elems(p.property.Computed)), from(p.property.Computed), to(p.property.Computed), c)} ::
    anyExp(EPOCH, m, old(elems(p.property.Computed)), from(p.property.Computed), to(p.property.Computed), c) ==> anyExp(EPOCH, m, elems(u), from(u), to(u), c))
template expandShorthands (u []string, i int, m param map[string]props.Property):
  0 <= i && i <= len(u) && forall q int {elems(u)[q]} :: from(u) <= q && q < from(u)+i ==> !shortOf(EPOCH, m, elems(u)[q])
template expandShorthands (out map[string]props.Property, M/m visited map[string]props.Property):
  (forall s string {has(out, s)} :: has(out, s) <==> M[s]) &&
  (forall s string {out[s]} :: M[s] ==> allocated(out[s].property.Computed)) &&
  (forall s string, c string {mem(out[s].property.Computed, c)} :: M[s] && mem(out[s].property.Computed, c) ==>
    expOf(EPOCH, m, s, c) && !shortOf(EPOCH, m, c)) &&
  (forall s string, c string {expOf(EPOCH, m, s, c)} :: M[s] && expOf(EPOCH, m, s, c) ==> mem(out[s].property.Computed, c))
property C16: expandShorthands, NewMerger, (Merger).getAffectedProps, (Merger).affectsProp
