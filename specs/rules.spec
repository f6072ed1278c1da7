# Loading stylesheets never fails to return (C13).
package cascadia
transparent css.Token
transparent cascadia.CssRule
transparent cascadia.CssDeclaration

# The parser of the css package: left is a bound on the number of grammar units that are still to come.
ghost css.Parser.left int
ghost css.Parser.failed bool
# The events of a reading: their number so far, the text of the values of the last one, and the blocks that are open after it, which nest
# as long as there was no syntax error.
ghost css.Parser.n int
ghost css.Parser.text string
ghost css.Parser.id int
ghost css.Parser.top int
ghost css.Parser.clean bool
ghost parse.Input.src io.Reader
extern parse.NewInput(r io.Reader) (in *parse.Input)
  allocates
  ensures in != nil && fresh(in) && in.src == r
extern css.NewParser(r *parse.Input, isInline bool) (p *css.Parser)
  requires r != nil
  allocates
  ensures p != nil && fresh(p) && p.left >= 0
  ensures [C11, C12] p.n == 0 && p.top == 0 && p.clean && readingOf(r.src, isInline, p.id)
extern css.(Parser).Next recv p () (gt css.GrammarType, tt css.TokenType, data []byte)
  requires p != nil
  assigns p.left, p.failed, p.n, p.text, p.top, p.clean
  allocates
  ensures [C11, C12] p.n == old(p.n) + 1 && (properly(p.id) && old(p.clean) ==> p.clean) && (p.clean ==> old(p.clean))
  ensures [C11, C12] p.clean ==> p.top == afterEvent(gt, bytes(data), p.text, old(p.top)) && (gt == 4 ==> kind(old(p.top)) == 1) && (gt == 7 ==> kind(old(p.top)) == 2) && (gt == 5 || gt == 6 ==> kind(old(p.top)) != 2)
  ensures [C11, C12] p.clean && gt == 6 ==> styleRule(p.id, p.n, old(p.top))
  ensures p.left >= 0 && p.left <= old(p.left)
  ensures gt != 0 || p.failed ==> p.left < old(p.left)
extern css.(Parser).HasParseError recv p () (r bool)
  requires p != nil
  ensures r <==> p.failed
extern css.(Parser).Values recv p () (r []css.Token)
  requires p != nil
  allocates
  ensures [C11, C12] tokensText(r) == p.text
extern css.(Parser).Err recv p () (err error)
  requires p != nil
  allocates
extern log.Println(v []any) ()
ghost bytes.Buffer.text string
extern bytes.(Buffer).Grow recv b (n int) ()
  requires n >= 0
extern bytes.(Buffer).Write recv b (p []byte) (n int, err error)
  assigns b.text
  ensures b.text == old(b.text) + bytes(p)
extern bytes.(Buffer).WriteByte recv b (c byte) (err error)
  assigns b.text
  ensures b.text == old(b.text) + byteStr(c)
extern bytes.(Buffer).WriteString recv b (s string) (n int, err error)
  assigns b.text
  ensures b.text == old(b.text) + s
extern bytes.(Buffer).String recv b () (s string)
  ensures s == b.text
ghost strings.Builder.text string
extern strings.(Builder).Write recv b (p []byte) (n int, err error)
  assigns b.text
  ensures b.text == old(b.text) + bytes(p)
extern strings.(Builder).WriteByte recv b (c byte) (err error)
  assigns b.text
  ensures b.text == old(b.text) + byteStr(c)
extern strings.(Builder).WriteString recv b (s string) (n int, err error)
  assigns b.text
  ensures b.text == old(b.text) + s
extern strings.(Builder).String recv b () (s string)
  ensures s == b.text
measure ExtractRules (p *css.Parser): p.left

func ExtractRules (r, inline) (rules, err)
  ensures forall k int {rules[k]} :: 0 <= k && k < len(rules) ==> rules[k].Selector != nil
  ensures [C11, C12] exists id int {readingOf(r, inline, id)} :: readingOf(r, inline, id) && (properly(id) ==> forall k int {rules[k]} :: 0 <= k && k < len(rules) ==> isCondition(id, rules[k].condition))
  defines err == nil ==> loaded(r, inline, elems(rules), from(rules), to(rules))
property C13 total: ExtractRules
template cascadia.ALL (x int, i over []css.Token): 0 <= x && x <= i
template cascadia.ALL (c CssRule): base(c.Declarations) == 0 || fresh(c.Declarations)
template cascadia.ALL (q []CssRule): forall k int {q[k]} :: 0 <= k && k < len(q) ==> q[k].Selector != nil
pure loaded(rd io.Reader, inline bool, a arr[cascadia.CssRule], lo int, hi int) bool
