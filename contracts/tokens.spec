# Text written to the output file (or standard output) as lines of tokens: engine/tokens.py.
ghost TOK: iarr2
ghost KND: iarr2
ghost LLEN: iarr
ghost LINE: int
ghost POS: int
ghost LAST: int
ghost OPENED: bool
# a number, or a word, after a blank; a literal var=val written as one word; the 0 that ends a clause
define NUMT(l,p,n) := TOK[l][p] == n && KND[l][p] == 0
define WRDT(l,p,w) := TOK[l][p] == w && KND[l][p] == 2
define LITT(l,p,v,d) := NUMT(l,p,v) && TOK[l][p+1] == WORD("=") && KND[l][p+1] == 3 && TOK[l][p+2] == d && KND[l][p+2] == 1
define CLEAN := POS == 0 && LAST == 0
