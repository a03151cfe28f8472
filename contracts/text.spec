# Text of the input file (engine/textin.py): characters, words, lines.
ghost LC: iarr2
ghost LN: iarr
ghost NL: int
ghost RD: int
function SCANN(int, iarr, int): int
function SCANI(int, int, iarr, int): int
function ATOIS(iarr, int): int
# words: the longest runs of characters that are neither blank nor tab
define BL(c) := c == 32 || c == 9
# NB: next position that is no blank; NE: next position that is one; CW: words that start before a position; NW: words
function NB(iarr, int, int): int
function NE(iarr, int, int): int
function CW(iarr, int, int): int
define BOUND(s,n,i) := i == 0 || i == n || BL(s[i])
# what holds of every line
define LINES := NL >= 0 && RD >= 0 && (forall l {LN[l]} :: 0 <= l && l < NL ==> LN[l] >= 0 && LC[l][LN[l]] == 0) && (forall l, i {LC[l][i]} :: 0 <= l && l < NL && 0 <= i && i < LN[l] ==> LC[l][i] != 0 && LC[l][i] != 10)
axiom nb: forall s: iarr, n, i {NB(s,n,i)} :: 0 <= i && i <= n ==> i <= NB(s,n,i) && NB(s,n,i) <= n && (NB(s,n,i) < n ==> !BL(s[NB(s,n,i)]))
axiom nbs: forall s: iarr, n, i, k {NB(s,n,i), s[k]} :: 0 <= i && i <= k && k < NB(s,n,i) && NB(s,n,i) <= n ==> BL(s[k])
axiom ne: forall s: iarr, n, i {NE(s,n,i)} :: 0 <= i && i <= n ==> i <= NE(s,n,i) && NE(s,n,i) <= n && (NE(s,n,i) < n ==> BL(s[NE(s,n,i)]))
axiom nes: forall s: iarr, n, i, k {NE(s,n,i), s[k]} :: 0 <= i && i <= k && k < NE(s,n,i) && NE(s,n,i) <= n ==> !BL(s[k])
# CW by recursion: a word starts at i when there is a blank (or nothing) before it
define STARTS(s,i) := !BL(s[i]) && (i == 0 || BL(s[i-1]))
function UNF(int): bool
axiom def.cw0: forall s: iarr, n, i {CW(s,n,i)} :: CW(s,n,0) == 0
axiom def.cw1: forall s: iarr, n, i {CW(s,n,i), UNF(i)} :: 0 < i ==> CW(s,n,i) == CW(s,n,i-1) + (STARTS(s,i-1) ? 1 : 0)
lemma cwnn by def.cw0,def.cw1 induct i: forall s: iarr, n, i {CW(s,n,i)} :: 0 <= i ==> 0 <= CW(s,n,i)
lemma cwmono by def.cw0,def.cw1 induct i: forall s: iarr, n, i, j {CW(s,n,i), CW(s,n,j)} :: 0 <= j && j <= i ==> CW(s,n,j) <= CW(s,n,i)
lemma cwgap by def.cw0,def.cw1,nb,nbs induct j: forall s: iarr, n, i, j {CW(s,n,j), NB(s,n,i)} :: 0 <= i && i <= j && j <= NB(s,n,i) && i <= n ==> CW(s,n,j) == CW(s,n,i)
lemma cwword by def.cw0,def.cw1,ne,nes induct j: forall s: iarr, n, i, j {CW(s,n,j), NE(s,n,i)} :: 0 <= i && i < j && j <= NE(s,n,i) && i < n && STARTS(s,i) ==> CW(s,n,j) == CW(s,n,i) + 1
lemma cw by cwnn,cwmono,def.cw0: forall s: iarr, n, i {CW(s,n,i)} :: 0 <= i && i <= n ==> CW(s,n,0) == 0 && 0 <= CW(s,n,i) && CW(s,n,i) <= CW(s,n,n)
lemma cwn by nb,nbs,ne,nes,cwgap,cwword,cwmono,def.cw0,def.cw1: forall s: iarr, n, i {CW(s,n,i), NB(s,n,i)} :: 0 <= i && i <= n && BOUND(s,n,i) ==> (NB(s,n,i) < n ==> CW(s,n,NE(s,n,NB(s,n,i))) == CW(s,n,i) + 1 && CW(s,n,i) < CW(s,n,n)) && (NB(s,n,i) == n ==> CW(s,n,i) == CW(s,n,n))
define FIRST(l) := NB(LC[l],LN[l],0)
define NW(l) := CW(LC[l],LN[l],LN[l])
define ATP(l,p) := CW(LC[l],LN[l],p)
# kinds of lines
define ISNOTE(l) := LC[l][0] == 99 || LC[l][0] == 112
define ISCL(l) := !(LC[l][0] == 99) && !(LC[l][0] == 112) && !(LC[l][0] == 100) && FIRST(l) < LN[l]
# ISW: buffer B holds the word that starts at position q of a text, and ends there
function ISW(iarr, iarr, int, int): bool
axiom isw: forall B: iarr, s: iarr, n, q {ISW(B,s,n,q)} :: ISW(B,s,n,q) <==> (0 <= q && q < n && STARTS(s,q) && (forall j {B[j]} :: 0 <= j && j < NE(s,n,q) - q ==> B[j] == s[q+j]) && B[NE(s,n,q) - q] == 0)
# WNUM: the integer atoi reads from word k of a text
function WNUM(iarr, int, int): int
axiom wnum: forall B: iarr, s: iarr, n, q {ATOIS(B,0), ISW(B,s,n,q)} :: ISW(B,s,n,q) ==> ATOIS(B,0) == WNUM(s,n,CW(s,n,q))
define WORDN(l,k) := WNUM(LC[l],LN[l],k)
# after one word was copied from lp-wp on, q = lp.pos-wp.pos: what is known of it
define QNEXT(l,q,e) := NE(LC[l],LN[l],q) == e && CW(LC[l],LN[l],e) == CW(LC[l],LN[l],q) + 1 && 0 <= CW(LC[l],LN[l],q) && CW(LC[l],LN[l],q) < NW(l)
