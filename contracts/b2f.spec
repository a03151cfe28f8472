# C12: Boolean2Finite.  PL: the line "p cnf V C" of the input; NOTES(l), NCLS(l): comment and p lines, clause lines before line l.
ghost PL: int
function NOTES(iarr2, int): int
function NCLS(iarr2, iarr, int): int
define BNOTE(C,l) := C[l][0] == 99 || C[l][0] == 112
define BCL(C,N,l) := !BNOTE(C,l) && NB(C[l],N[l],0) < N[l]
axiom notes0: forall C: iarr2, l {NOTES(C,l)} :: NOTES(C,0) == 0 && (l >= 0 ==> NOTES(C,l) >= 0)
axiom notes1: forall C: iarr2, l {NOTES(C,l), C[l]} :: l >= 0 ==> NOTES(C,l+1) == NOTES(C,l) + (BNOTE(C,l) ? 1 : 0)
axiom ncls0: forall C: iarr2, N: iarr, l {NCLS(C,N,l)} :: NCLS(C,N,0) == 0 && (l >= 0 ==> NCLS(C,N,l) >= 0)
axiom ncls1: forall C: iarr2, N: iarr, l {NCLS(C,N,l), C[l]} :: l >= 0 ==> NCLS(C,N,l+1) == NCLS(C,N,l) + (BCL(C,N,l) ? 1 : 0)
define NT(l) := NOTES(LC,l)
define NC(l) := NCLS(LC,LN,l)
define HV := SCANI(STRNUM("p %*s %d"),0,LC[PL],0)
# the file is a DIMACS file: one p line, every clause line holds its literals and its only 0 at the end
define DIMACS := LINES && 0 <= PL && PL < NL && LC[PL][0] == 112 && (forall l {LC[l]} :: 0 <= l && l < NL && LC[l][0] == 112 ==> l == PL) && SCANN(STRNUM("p %*s %d"),LC[PL],0) == 1 && HV >= 0
define BWORDS := (forall l, k {WORDN(l,k)} :: 0 <= l && l < NL && BCL(LC,LN,l) && 0 <= k && k < NW(l) ==> 0-HV <= WORDN(l,k) && WORDN(l,k) <= HV && (WORDN(l,k) == 0 <==> k == NW(l)-1))
define DATA(D,n) := (forall l {LC[l]} :: 0 <= l && l < n && BCL(LC,LN,l) ==> 0 <= NC(l) && NC(l) < NC(n) && D[NC(l)].len == NW(l)-1)
define DATAW(D,n) := (forall l, k {WORDN(l,k)} :: 0 <= l && l < n && BCL(LC,LN,l) && 0 <= k && k < NW(l)-1 ==> D[NC(l)][k] == WORDN(l,k))
define MEMS(S) := (forall v {S[v]} :: S[v] ==> 0 <= v && v <= HV)
define B2FLITS(B) := (forall l, k {WORDN(l,k)} :: 0 <= l && l < NL && BCL(LC,LN,l) && 0 <= k && k < NW(l)-1 ==> LITT(B+NC(l),3*k,abs(WORDN(l,k)),(WORDN(l,k) > 0 ? 1 : 0)))
define B2FENDS(B) := (forall l {LC[l]} :: 0 <= l && l < NL && BCL(LC,LN,l) ==> LLEN[B+NC(l)] == 3*(NW(l)-1)+1 && NUMT(B+NC(l),3*(NW(l)-1),0))
define B2FDOMS(B,n) := (forall c {LLEN[c]} :: B <= c && c < B+n ==> LLEN[c] == 3 && WRDT(c,0,WORD("d")) && NUMT(c,1,c-B+1) && NUMT(c,2,2))
fn Boolean2Finite(cline)
  requires text@b2f: DIMACS && RD == 0
  requires words@b2f: BWORDS
  requires file@b2f: !OPENED
  ensures count@b2f: OPENED ==> LINE == NT(NL) + HV + NC(NL) && CLEAN
  ensures doms@b2f: OPENED ==> B2FDOMS(NT(NL),HV)
  ensures lits@b2f: OPENED ==> B2FLITS(NT(NL)+HV)
  ensures ends@b2f: OPENED ==> B2FENDS(NT(NL)+HV)
  note atoi next@b2f by text,rd,pos,line,room,copy,nb,nbs,ne,nes,cw,cwn,cwgap,cwword: wp.pos > 0 ==> QNEXT(RD-1,lp.pos-wp.pos,lp.pos)
  note atoi isw@b2f by text,rd,pos,line,room,copy,nb,nbs,ne,nes,isw,next: wp.pos > 0 ==> ISW(word.el,LC[RD-1],LN[RD-1],lp.pos-wp.pos)
  note atoi end@b2f by text,rd,pos,line,room,copy,nb,nbs,ne,nes,cw,cwn: wp.pos == 0 ==> lp.pos == LN[RD-1] && ATP(RD-1,lp.pos) == NW(RD-1)
  note atoi put@b2f by text,rd,pos,line,room,copy,nb,nbs,ne,nes,cw,cwn,cwgap,cwword,at,next,end: temp.len == (wp.pos > 0 ? ATP(RD-1,lp.pos-wp.pos) : NW(RD-1)-1)
  inv 0 text@b2f: DIMACS && 0 <= RD && RD <= NL
  inv 0 words@b2f: BWORDS
  inv 0 out@b2f: OPENED && LINE == NT(RD) && CLEAN
  inv 0 head@b2f: num_var == (PL < RD ? HV : 0)
  inv 0 vars@b2f: MEMS(variables)
  inv 0 data@b2f: data.len == NC(RD)
  inv 0 lens@b2f: DATA(data,RD)
  inv 0 data2@b2f: DATAW(data,RD)
  inv 1 text@b2f: DIMACS && 0 < RD && RD <= NL
  inv 1 words@b2f: BWORDS
  inv 1 vars@b2f: MEMS(variables)
  inv 1 pos@b2f: 0 <= lp.pos && lp.pos <= LN[RD-1] && BOUND(LC[RD-1],LN[RD-1],lp.pos)
  inv 1 line@b2f: line.el == LC[RD-1] && line.len == LN[RD-1]
  inv 1 room@b2f: word.len == LN[RD-1]+1
  inv 1 at@b2f: temp.len == (ATP(RD-1,lp.pos) == NW(RD-1) ? NW(RD-1)-1 : ATP(RD-1,lp.pos))
  inv 1 tempw@b2f: forall k {temp[k]} :: 0 <= k && k < temp.len ==> temp[k] == WORDN(RD-1,k)
  inv 2 pos@b2f: entry(lp.pos) <= lp.pos && lp.pos <= NB(LC[RD-1],LN[RD-1],entry(lp.pos))
  inv 3 pos@b2f: entry(lp.pos) <= lp.pos && lp.pos <= NE(LC[RD-1],LN[RD-1],entry(lp.pos)) && wp.pos == lp.pos - entry(lp.pos)
  inv 3 copy@b2f: forall j {word[j]} :: 0 <= j && j < wp.pos ==> word[j] == LC[RD-1][entry(lp.pos)+j]
  inv 4 text@b2f: DIMACS && x >= 1
  inv 4 out@b2f: LINE == NT(NL) + x - 1 && CLEAN
  inv 4 doms@b2f: B2FDOMS(NT(NL),x-1)
  inv 5 text@b2f: DIMACS && y >= 0
  inv 5 out@b2f: LINE == NT(NL) + HV + y && CLEAN
  inv 5 doms@b2f: B2FDOMS(NT(NL),HV)
  inv 5 lens@b2f: forall c {LLEN[c]} :: NT(NL)+HV <= c && c < LINE ==> LLEN[c] == 3*data[c-NT(NL)-HV].len+1 && NUMT(c,LLEN[c]-1,0)
  inv 5 lits@b2f: forall c, k {data[c][k]} :: 0 <= c && c < y && 0 <= k && k < data[c].len ==> LITT(NT(NL)+HV+c,3*k,abs(data[c][k]),(data[c][k] >= 0 ? 1 : 0))
  inv 6 text@b2f: DIMACS && 0 <= y && x >= 0
  inv 6 out@b2f: LINE == NT(NL) + HV + y && POS == 3*x && LAST == 0
  inv 6 doms@b2f: B2FDOMS(NT(NL),HV)
  inv 6 lens@b2f: forall c {LLEN[c]} :: NT(NL)+HV <= c && c < LINE ==> LLEN[c] == 3*data[c-NT(NL)-HV].len+1 && NUMT(c,LLEN[c]-1,0)
  inv 6 lits@b2f: forall c, k {data[c][k]} :: 0 <= c && c < y && 0 <= k && k < data[c].len ==> LITT(NT(NL)+HV+c,3*k,abs(data[c][k]),(data[c][k] >= 0 ? 1 : 0))
  inv 6 cur@b2f: forall k {data[y][k]} :: 0 <= k && k < x ==> LITT(LINE,3*k,abs(data[y][k]),(data[y][k] >= 0 ? 1 : 0))
