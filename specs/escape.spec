# Decoding of names written with escapes (C15).
package cascadia

define hexAt(c) = 48 <= c && c <= 57 || 97 <= c && c <= 102 || 65 <= c && c <= 70
define startAt(c) = 97 <= c && c <= 122 || 65 <= c && c <= 90 || c == 95 || c > 127
define nameAt(c) = startAt(c) || c == 45 || 48 <= c && c <= 57
pure byteStr(c int) string
axiom cutOne: forall s string, i int, j int {s[i:j]} :: 0 <= i && j == i+1 && j <= len(s) ==> s[i:j] == byteStr(s[i])
axiom cutNone: forall s string, i int, j int {s[i:j]} :: 0 <= i && j == i && j <= len(s) ==> s[i:j] == ""
axiom cutMore: forall s string, i int, j int, k int {s[i:j], s[i:k]} :: 0 <= i && i <= j && k == j+1 && k <= len(s) ==> s[i:k] == s[i:j] + byteStr(s[j])

# An escape: up to six hexadecimal digits from a, and one white space after them; or any other character.
pure hexFrom(s string, a int, i int) int
axiom hexFromStep: forall s string, a int, i int, n int {hexFrom(s, a, i), hexFrom(s, a, n)} ::
  0 <= i && i < len(s) && i < a+6 && hexAt(s[i]) && n == i+1 ==> hexFrom(s, a, i) == hexFrom(s, a, n)
axiom hexFromStop: forall s string, a int, i int {hexFrom(s, a, i)} :: 0 <= i && (i >= len(s) || i >= a+6 || !hexAt(s[i])) ==> hexFrom(s, a, i) == i
pure spaceEnd(s string, i int) int
axiom spaceEndMeaning: forall s string, i int {spaceEnd(s, i)} :: spaceEnd(s, i) == ite(i >= len(s), i,
  ite(s[i] == 13, ite(i+1 < len(s) && s[i+1] == 10, i+2, i+1), ite(s[i] == 32 || s[i] == 9 || s[i] == 10 || s[i] == 12, i+1, i)))
pure hexNum(s string) int
define isEscape(s, i) = i+1 < len(s) && s[i] == 92 && s[i+1] != 13 && s[i+1] != 10 && s[i+1] != 12
pure escEnd(s string, i int) int
axiom escEndMeaning: forall s string, i int {escEnd(s, i)} :: escEnd(s, i) == ite(hexAt(s[i+1]), spaceEnd(s, hexFrom(s, i+1, i+1)), i+2)
pure escText(s string, i int) string
axiom escTextMeaning: forall s string, i int {escText(s, i)} :: escText(s, i) == ite(hexAt(s[i+1]), runestr(hexNum(s[i+1:hexFrom(s, i+1, i+1)])), byteStr(s[i+1]))
lemma hexFromRange uses n hint hexFrom(s, a, i+1): forall s string, a int, i int, n int {hexFrom(s, a, i), hexFrom(s, a, a+6-n)} ::
  0 <= a && a <= i && n == a+6-i && 0 <= n && i <= len(s) ==> i <= hexFrom(s, a, i) && hexFrom(s, a, i) <= len(s)

# The name from i on: what it stands for, where it ends, and whether all its escapes are escapes.
pure nm(s string, i int) string
pure nmEnd(s string, i int) int
pure nmOK(s string, i int) bool
axiom nmChar: forall s string, i int, n int {nm(s, i), nm(s, n)} :: 0 <= i && i < len(s) && nameAt(s[i]) && n == i+1 ==> nm(s, i) == byteStr(s[i]) + nm(s, n)
axiom nmEscape: forall s string, i int, n int {nm(s, i), nm(s, n)} :: 0 <= i && isEscape(s, i) && n == escEnd(s, i) ==> nm(s, i) == escText(s, i) + nm(s, n)
axiom nmStop: forall s string, i int {nm(s, i)} :: 0 <= i && (i >= len(s) || !nameAt(s[i]) && s[i] != 92) ==> nm(s, i) == ""
axiom nmEndChar: forall s string, i int, n int {nmEnd(s, i), nmEnd(s, n)} :: 0 <= i && i < len(s) && nameAt(s[i]) && n == i+1 ==> nmEnd(s, i) == nmEnd(s, n)
axiom nmEndEscape: forall s string, i int, n int {nmEnd(s, i), nmEnd(s, n)} :: 0 <= i && isEscape(s, i) && n == escEnd(s, i) ==> nmEnd(s, i) == nmEnd(s, n)
axiom nmEndStop: forall s string, i int {nmEnd(s, i)} :: 0 <= i && (i >= len(s) || !nameAt(s[i]) && s[i] != 92) ==> nmEnd(s, i) == i
axiom nmOKChar: forall s string, i int, n int {nmOK(s, i), nmOK(s, n)} :: 0 <= i && i < len(s) && nameAt(s[i]) && n == i+1 ==> (nmOK(s, i) <==> nmOK(s, n))
axiom nmOKEscape: forall s string, i int, n int {nmOK(s, i), nmOK(s, n)} :: 0 <= i && isEscape(s, i) && n == escEnd(s, i) ==> (nmOK(s, i) <==> nmOK(s, n))
axiom nmOKStop: forall s string, i int {nmOK(s, i)} :: 0 <= i && (i >= len(s) || !nameAt(s[i]) && s[i] != 92) ==> nmOK(s, i)
axiom nmOKBad: forall s string, i int {nmOK(s, i)} :: 0 <= i && i < len(s) && s[i] == 92 && !isEscape(s, i) ==> !nmOK(s, i)

pure dashes(s string, i int) int
axiom dashesStep: forall s string, i int, n int {dashes(s, i), dashes(s, n)} :: 0 <= i && i < len(s) && s[i] == 45 && n == i+1 ==> dashes(s, i) == dashes(s, n)
axiom dashesStop: forall s string, i int {dashes(s, i)} :: 0 <= i && (i >= len(s) || s[i] != 45) ==> dashes(s, i) == i
define isIdent(s, i) = dashes(s, i) < len(s) && (startAt(s[dashes(s, i)]) || s[dashes(s, i)] == 92) && nmOK(s, dashes(s, i)) && nm(s, dashes(s, i)) != ""

axiom repeatedByte: forall s string, n int {repeated(s, n)} :: len(s) == 1 ==> s == byteStr(s[0])

# A whole text with its escapes decoded; a backslash at its end stands for nothing.
pure un(s string, i int) string
axiom unEnd: forall s string, i int {un(s, i)} :: i >= len(s) || i == len(s)-1 && s[i] == 92 ==> un(s, i) == ""
axiom unChar: forall s string, i int, n int {un(s, i), un(s, n)} :: 0 <= i && i < len(s) && s[i] != 92 && n == i+1 ==> un(s, i) == byteStr(s[i]) + un(s, n)
axiom unEscape: forall s string, i int, n int {un(s, i), un(s, n)} :: 0 <= i && i+1 < len(s) && s[i] == 92 && n == escEnd(s, i) ==> un(s, i) == escText(s, i) + un(s, n)

template (parser).parseEscape (p param *parser, i int): hexFrom(p.s, old(p.i)+1, i) == hexFrom(p.s, old(p.i)+1, old(p.i)+1)
template (parser).parseName (p param *parser, i int, r string): r + nm(p.s, i) == nm(p.s, old(p.i)) && nmEnd(p.s, i) == nmEnd(p.s, old(p.i)) && (nmOK(p.s, i) <==> nmOK(p.s, old(p.i)))
template (parser).parseName (p param *parser, i int, start int, r string): r + p.s[start:i] + nm(p.s, i) == nm(p.s, old(p.i)) && nmEnd(p.s, i) == nmEnd(p.s, old(p.i)) && (nmOK(p.s, i) <==> nmOK(p.s, old(p.i)))
template (parser).parseIdentifier (p param *parser): repeated("-", p.i - old(p.i)) + nm(p.s, p.i) == nm(p.s, old(p.i)) && nmEnd(p.s, p.i) == nmEnd(p.s, old(p.i)) && dashes(p.s, p.i) == dashes(p.s, old(p.i))
template (parser).parseIdentifier (p param *parser, n int): repeated("-", n) + nm(p.s, p.i) == nm(p.s, old(p.i)) && nmEnd(p.s, p.i) == nmEnd(p.s, old(p.i)) && dashes(p.s, p.i) == dashes(p.s, old(p.i))
template CssUnescape (b param []byte, i int): bytes(b)[0:i] + un(bytes(b), i) == un(bytes(b), 0)
template CssUnescape (b param []byte, i int, buf *bytes.Buffer, inEsc bool):
  ite(inEsc, 1 <= i && bytes(b)[i-1] == 92 && (i < len(b) ==> !hexAt(bytes(b)[i])) && buf.text + un(bytes(b), i-1) == un(bytes(b), 0), buf.text + un(bytes(b), i) == un(bytes(b), 0))
property C15: (parser).parseEscape, (parser).parseName, (parser).parseIdentifier, (parser).parseClassSelector, (parser).parseIDSelector, CssUnescape

# s from i to e is one way to write x from k on: each character as it is, behind a backslash, or as the number of its code point.
pure written(x string, k int, s string, i int, e int) bool
axiom writtenMeaning: forall x string, k int, s string, i int, e int {written(x, k, s, i, e)} :: written(x, k, s, i, e) <==>
  (0 <= k && 0 <= i && i <= e && e <= len(s) && (k == len(x) && i == e
  || k < len(x) && i < e && nameAt(s[i]) && s[i] == x[k] && written(x, k+1, s, i+1, e)
  || k < len(x) && i+1 < e && isEscape(s, i) && !hexAt(s[i+1]) && s[i+1] == x[k] && written(x, k+1, s, i+2, e)
  || k < len(x) && isEscape(s, i) && hexAt(s[i+1]) && k+len(escText(s, i)) <= len(x) && escText(s, i) == x[k:k+len(escText(s, i))] && written(x, k+len(escText(s, i)), s, escEnd(s, i), e)))
axiom cutJoin: forall s string, i int, j int, k int {s[i:j], s[j:k]} :: 0 <= i && i <= j && j <= k && k <= len(s) ==> s[i:k] == s[i:j] + s[j:k]
lemma writtenName uses len(x)-k hint nm(s, i+1), nm(s, i+2), nm(s, escEnd(s, i)), nmEnd(s, i+1), nmEnd(s, i+2), nmEnd(s, escEnd(s, i)), nmOK(s, i+1), nmOK(s, i+2), nmOK(s, escEnd(s, i)),
  x[k:k+1], x[k+1:len(x)], x[k:k+len(escText(s, i))], x[k+len(escText(s, i)):len(x)]: forall x string, k int, s string, i int, e int {written(x, k, s, i, e)} ::
  written(x, k, s, i, e) && (e >= len(s) || !nameAt(s[e]) && s[e] != 92) ==> nm(s, i) == x[k:len(x)] && nmEnd(s, i) == e && nmOK(s, i)
lemma writtenText uses len(x)-k hint un(s, i+1), un(s, i+2), un(s, escEnd(s, i)),
  x[k:k+1], x[k+1:len(x)], x[k:k+len(escText(s, i))], x[k+len(escText(s, i)):len(x)]: forall x string, k int, s string, i int, e int {written(x, k, s, i, e)} ::
  e == len(s) && written(x, k, s, i, e) ==> un(s, i) == x[k:len(x)]
