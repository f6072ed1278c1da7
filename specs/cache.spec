# The provided cache (C18, C19).
package merge
transparent merge.SimpleCache

# Assumed: the documented behaviour of sync.Map, one operation at a time.
ghost sync.Map.dom set[any]
ghost sync.Map.val arr[any, any]

extern sync.(Map).Load recv m (key any) (value any, ok bool)
  ensures ok <==> m.dom[key]
  ensures ok ==> value == m.val[key]
  ensures !ok ==> value == nil
extern sync.(Map).Store recv m (key any, value any)
  assigns m.dom, m.val
  ensures m.dom == store(old(m.dom), key, true)
  ensures m.val == store(old(m.val), key, value)
extern sync.(Map).Delete recv m (key any)
  assigns m.dom, m.val
  ensures m.dom == store(old(m.dom), key, false)
  ensures m.val == old(m.val)
extern sync.(Map).Clear recv m ()
  assigns m.dom, m.val
  ensures m.dom == emptyset(m.dom)
extern sync.(Map).LoadOrStore recv m (key any, value any) (actual any, loaded bool)
  assigns m.dom, m.val
  ensures loaded <==> old(m.dom[key])
  ensures actual == ite(loaded, old(m.val[key]), value)
  ensures m.dom == store(old(m.dom), key, true)
  ensures m.val == store(old(m.val), key, actual)
extern sync.(Map).Swap recv m (key any, value any) (previous any, loaded bool)
  assigns m.dom, m.val
  ensures loaded <==> old(m.dom[key])
  ensures m.dom == store(old(m.dom), key, true)
  ensures m.val == store(old(m.val), key, value)
extern sync.(Map).LoadAndDelete recv m (key any) (value any, loaded bool)
  assigns m.dom, m.val
  ensures loaded <==> old(m.dom[key])
  ensures loaded ==> value == old(m.val[key])
  ensures m.dom == store(old(m.dom), key, false)
  ensures m.val == old(m.val)
# Range with a function that deletes the key it is given and asks for more (k, v: the entry; r: the result of the function)
# leaves the map empty, if nothing else changes the map meanwhile.
extern sync.(Map).Range recv m (f)
  requires r && m.dom == store(old(m.dom), k, false)
  assigns m.dom, m.val
  ensures m.dom == emptyset(m.dom)
extern sync.(Mutex).Lock recv m ()
extern sync.(Mutex).Unlock recv m ()
extern sync.(RWMutex).Lock recv m ()
extern sync.(RWMutex).Unlock recv m ()
extern sync.(RWMutex).RLock recv m ()
extern sync.(RWMutex).RUnlock recv m ()

# The cache holds strings only: an invariant of every history of operations.
define cacheInv(c) = forall k any {c.items.dom[k]} :: c.items.dom[k] ==> is(c.items.val[k], string)

# Any number of operations at the same time (C19): the others keep the invariant, at every point, too.
pure stored(c *SimpleCache, k any, v any) bool
define sharedInv(c) = forall k any {c.items.dom[k]} :: c.items.dom[k] ==> is(c.items.val[k], string) && stored(c, k, c.items.val[k])

func NewCache () (c)
  ensures [C18 C19 new] fresh(c) && c != nil && cacheInv(c) && c.items.dom == emptyset(c.items.dom)

func (SimpleCache).Get recv c (key string) (v, ok)
  requires c != nil && cacheInv(c)
  shared c.items.dom, c.items.val: sharedInv(c)
  ensures [C18 hit] ok <==> c.items.dom[box(key)]
  ensures [C18 value] ok ==> v == as(c.items.val[box(key)], string)
  ensures [C18 C19 miss] !ok ==> v == ""
  ensures [C19 stored] ok ==> stored(c, box(key), box(v))
  ensures [C18 unchanged] cacheInv(c) && c.items.dom == old(c.items.dom) && c.items.val == old(c.items.val)

func (SimpleCache).Set recv c (key string, data string)
  requires c != nil && cacheInv(c)
  shared c.items.dom, c.items.val: sharedInv(c)
  assigns c.items.dom, c.items.val
  assume stored(c, box(key), box(data)) # what the function is called for
  ensures [C18 inv] cacheInv(c)
  ensures [C18 stored] forall k any {c.items.dom[k]} :: c.items.dom[k] <==> k == box(key) || old(c.items.dom[k])
  ensures [C18 value] as(c.items.val[box(key)], string) == data
  ensures [C18 others] forall k any {c.items.val[k]} :: k != box(key) ==> c.items.val[k] == old(c.items.val[k])

func (SimpleCache).Clear recv c ()
  requires c != nil && cacheInv(c)
  shared c.items.dom, c.items.val: sharedInv(c)
  assigns c.items.dom, c.items.val
  ensures [C18 empty] forall k any {c.items.dom[k]} :: !c.items.dom[k]
  ensures [C18 inv] cacheInv(c)

property C18: NewCache, (SimpleCache).Get, (SimpleCache).Set, (SimpleCache).Clear

property C19 concurrent: NewCache, (SimpleCache).Get, (SimpleCache).Set, (SimpleCache).Clear
