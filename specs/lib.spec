# Assumed contracts of the standard library and of other packages.
package strings

extern errors.New(text string) (err error)
  allocates
  deterministic
  ensures err != nil
extern fmt.Errorf(format string, a []any) (err error)
  allocates
  deterministic
  ensures err != nil
extern fmt.Sprintf(format string, a []any) (r string)
  deterministic
extern strconv.ParseUint(s string, base int, bitSize int) (v uint64, err error)
  deterministic
  ensures base == 16 ==> v == hexNum(s)
extern strconv.Atoi(s string) (v int, err error)
  deterministic
extern strconv.Itoa(i int) (r string)
  deterministic
# The pattern of a compiled (immutable) regular expression.
pure rxpat(re *regexp.Regexp) string
extern regexp.Compile(expr string) (re *regexp.Regexp, err error)
  allocates
  deterministic
  ensures err == nil ==> re != nil
extern regexp.MustCompile(expr string) (re *regexp.Regexp)
  allocates
  deterministic
  ensures re != nil && rxpat(re) == expr
extern regexp.(Regexp).String recv re () (r string)
  deterministic
extern strings.HasPrefix(s string, prefix string) (r bool)
  deterministic
  ensures r <==> len(s) >= len(prefix) && s[0:len(prefix)] == prefix
extern strings.HasSuffix(s string, suffix string) (r bool)
  deterministic
  ensures r <==> len(s) >= len(suffix) && s[len(s)-len(suffix):len(s)] == suffix
extern strings.Index(s string, substr string) (r int)
  deterministic
  ensures r == -1 || 0 <= r && r + len(substr) <= len(s) && s[r:r+len(substr)] == substr
extern strings.IndexAny(s string, chars string) (r int)
  deterministic
  ensures r == -1 || 0 <= r && r < len(s)
extern strings.IndexByte(s string, c byte) (r int)
  deterministic
  ensures r == -1 || 0 <= r && r < len(s) && s[r] == c
extern strings.Contains(s string, substr string) (r bool)
  deterministic
extern strings.ContainsRune(s string, c rune) (r bool)
  deterministic
extern strings.ContainsAny(s string, chars string) (r bool)
  deterministic
extern strings.EqualFold(s string, t string) (r bool)
  deterministic
extern strings.ToLower(s string) (r string)
  deterministic
pure repeated(s string, n int) string
axiom repeatedNone: forall s string {repeated(s, 0)} :: repeated(s, 0) == ""
axiom repeatedStep: forall s string, i int, n int {repeated(s, i), repeated(s, n)} :: 0 <= i && n == i+1 ==> repeated(s, n) == repeated(s, i) + s
extern strings.Repeat(s string, count int) (r string)
  deterministic
  requires count >= 0
  ensures r == repeated(s, count)
  ensures len(r) == count * len(s)
extern strings.TrimSpace(s string) (r string)
  deterministic
extern strings.TrimPrefix(s string, prefix string) (r string)
  deterministic
  ensures len(r) <= len(s)
extern strings.TrimSuffix(s string, suffix string) (r string)
  deterministic
  ensures len(r) <= len(s)
extern strings.TrimLeft(s string, cutset string) (r string)
  deterministic
  ensures len(r) <= len(s)
extern strings.TrimRight(s string, cutset string) (r string)
  deterministic
  ensures len(r) <= len(s)
extern strings.Trim(s string, cutset string) (r string)
  deterministic
  ensures len(r) <= len(s)
# The text of the strings a[lo..hi) with spaces between them.
pure joined(a arr[string], lo int, hi int) string
extern strings.Join(list []string, sep string) (r string)
  deterministic
  ensures sep == " " ==> r == joined(elems(list), from(list), to(list))
  ensures sep == "" ==> r == concat(elems(list), from(list), to(list))
extern strings.NewReplacer(oldnew []string) (r *strings.Replacer)
  allocates
  deterministic
  ensures r != nil
extern strings.(Replacer).Replace recv r (s string) (t string)
  deterministic
  requires r != nil
