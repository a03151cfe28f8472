# C10: LinearEncode.  SZ(d), CZ(d): Boolean variables, extra lines for a variable of domain size d; XSUM, LSUM: their sums over the first x variables.
define SZ(d) := (d == 2 ? 1 : 2*d-1)
define CZ(d) := (d > 2 ? 4*d-4 : (d == 1 ? 1 : 0))
function XSUM(iarr, int): int
function LSUM(iarr, int): int
axiom xsum0: forall D: iarr, x {XSUM(D,x)} :: XSUM(D,0) == 0
axiom xsum1: forall D: iarr, x {XSUM(D,x), D[x+1]} :: x >= 0 ==> XSUM(D,x+1) == XSUM(D,x) + SZ(D[x+1])
axiom def.xsum: forall D: iarr, x {XSUM(D,x), UNF(x)} :: x > 0 ==> XSUM(D,x) == XSUM(D,x-1) + SZ(D[x])
axiom lsum0: forall D: iarr, x {LSUM(D,x)} :: LSUM(D,0) == 0
axiom lsum1: forall D: iarr, x {LSUM(D,x), D[x+1]} :: x >= 0 ==> LSUM(D,x+1) == LSUM(D,x) + CZ(D[x+1])
axiom def.lsum: forall D: iarr, x {LSUM(D,x), UNF(x)} :: x > 0 ==> LSUM(D,x) == LSUM(D,x-1) + CZ(D[x])
lemma xstep by def.xsum,xsum1: forall D: iarr, x, y {XSUM(D,x), XSUM(D,y)} :: y >= 0 && x == y+1 ==> XSUM(D,x) == XSUM(D,y) + SZ(D[x])
lemma lstep2 by def.lsum,lsum1: forall D: iarr, x, y {LSUM(D,x), LSUM(D,y)} :: y >= 0 && x == y+1 ==> LSUM(D,x) == LSUM(D,y) + CZ(D[x])
lemma xnn by def.xsum,xsum0 induct n: forall D: iarr, n {XSUM(D,n)} :: n >= 0 && (forall k {D[k]} :: D[k] >= 1) ==> XSUM(D,n) >= 0
lemma lmono by def.lsum,lsum0 induct n: forall D: iarr, v, n {LSUM(D,v), LSUM(D,n)} :: 0 <= v && v <= n && (forall k {D[k]} :: D[k] >= 1) ==> LSUM(D,v) <= LSUM(D,n)
lemma lstep by lsum1: forall D: iarr, v {LSUM(D,v-1), MK1(v)} :: v >= 1 ==> LSUM(D,v) == LSUM(D,v-1) + CZ(D[v])
# variable v=d is Boolean variable IX(v)+d (IX(v) alone, true for d = 1, with two values); its lines start at line LS(v)
define IX(v) := 1 + XSUM(DM,v-1)
define LS(v) := 1 + LSUM(DM,v-1)
define LHEAD := LLEN[0] == 4 && WRDT(0,0,WORD("p")) && WRDT(0,1,WORD("cnf")) && NUMT(0,2,XSUM(DM,XN)) && NUMT(0,3,NX(NL) + LSUM(DM,XN))
define CL1(l,a) := LLEN[l] == 2 && NUMT(l,0,a) && NUMT(l,1,0)
define CL2(l,a,b) := LLEN[l] == 3 && NUMT(l,0,a) && NUMT(l,1,b) && NUMT(l,2,0)
define CL3(l,a,b,c) := LLEN[l] == 4 && NUMT(l,0,a) && NUMT(l,1,b) && NUMT(l,2,c) && NUMT(l,3,0)
# with x = IX(v), y = IX(v)+d: x_0 .. x_{d-1}; y_0 = x_0; y_{j+1} = y_j or x_{j+1}; not y_j or not x_{j+1}
define LALOL(v) := LLEN[LS(v)] == DM[v]+1 && NUMT(LS(v),DM[v],0)
define LEQ0(v) := CL2(LS(v)+1,0-(IX(v)+DM[v]),IX(v)) && CL2(LS(v)+2,IX(v)+DM[v],0-IX(v))
define LCHN(v,j) := CL3(LS(v)+3+3*j,0-(IX(v)+DM[v]+1+j),IX(v)+DM[v]+j,IX(v)+1+j) && CL2(LS(v)+4+3*j,IX(v)+DM[v]+1+j,0-(IX(v)+DM[v]+j)) && CL2(LS(v)+5+3*j,IX(v)+DM[v]+1+j,0-(IX(v)+1+j))
define LAMO(v,j) := CL2(LS(v)+3+3*(DM[v]-2)+j,0-(IX(v)+DM[v]+j),0-(IX(v)+1+j))
define LONES(n) := (forall v {MK1(v)} :: 1 <= v && v <= n && MK1(v) && DM[v] == 1 ==> CL1(LS(v),0-IX(v)))
define LALOLS(n) := (forall v {MK1(v)} :: 1 <= v && v <= n && MK1(v) && DM[v] > 2 ==> LALOL(v))
define LALOS(n) := (forall v, j {MK2(v,j)} :: 1 <= v && v <= n && MK1(v) && MK2(v,j) && DM[v] > 2 && 0 <= j && j < DM[v] ==> NUMT(LS(v),j,IX(v)+j))
define LEQ0S(n) := (forall v {MK1(v)} :: 1 <= v && v <= n && MK1(v) && DM[v] > 2 ==> LEQ0(v))
define LCHNS(n) := (forall v, j {MK2(v,j)} :: 1 <= v && v <= n && MK1(v) && MK2(v,j) && DM[v] > 2 && 0 <= j && j < DM[v]-2 ==> LCHN(v,j))
define LAMOS(n) := (forall v, j {MK2(v,j)} :: 1 <= v && v <= n && MK1(v) && MK2(v,j) && DM[v] > 2 && 0 <= j && j < DM[v]-1 ==> LAMO(v,j))
define LB := 1 + LSUM(DM,XN)
define LENDS(n) := (forall l {LC[l]} :: 0 <= l && l < n && XCL(LC,LN,l) ==> 0 <= NX(l) && NX(l) < NX(n) && LLEN[LB+NX(l)] == NW(l) && NUMT(LB+NX(l),NW(l)-1,0))
define LVALOF(v,e,d) := (DM[v] > 2 ? (e ? IX(v)+d : 0-(IX(v)+d)) : ((d == 1 <==> e) ? IX(v) : 0-IX(v)))
define LLITS(n) := (forall l, k {MK2(l,k)} :: 0 <= l && l < n && XCL(LC,LN,l) && 0 <= k && k < NW(l)-1 && MK2(l,k) ==> NUMT(LB+NX(l),k,LVALOF(XVAR(l,k),XEQ(l,k),XVAL(l,k))))
define DOMS(d,n) := d.len == XN+1 && d[0] == 2 && (forall v {d[v]} :: 1 <= v && v <= n ==> d[v] == DM[v])
define INDX(x,n) := x.len == XN+1 && (forall v {x[v]} :: 1 <= v && v <= n ==> x[v] == IX(v))
function HOLDM(barr, int): bool
axiom holdm: forall Y: barr, d {HOLDM(Y,d)} :: HOLDM(Y,d)
# what the lines of a variable with d > 2 values say, X[j] and Y[j] the values of its Boolean variables IX+j and IX+d+j:
# exactly one X[j] holds (lone, and the first line); and any such X has a Y that satisfies them (lext)
define HOLDS(X,Y,d) := d > 2 && (exists j {X[j]} :: 0 <= j && j < d && X[j]) && (Y[0] <==> X[0]) && (forall j {Y[j]} :: 1 <= j && j < d-1 ==> (!Y[j] || Y[j-1] || X[j]) && (Y[j] || !Y[j-1]) && (Y[j] || !X[j])) && (forall j {X[j]} :: 1 <= j && j < d ==> !Y[j-1] || !X[j])
lemma chain induct j: forall X: barr, Y: barr, d, i, j {X[i], Y[j], HOLDM(Y,d)} :: HOLDS(X,Y,d) && 0 <= i && i <= j && j < d-1 && HOLDM(Y,d) && X[i] ==> Y[j]
lemma lone by chain: forall X: barr, Y: barr, d, i, j {X[i], X[j], HOLDM(Y,d)} :: HOLDS(X,Y,d) && HOLDM(Y,d) && 0 <= i && i < j && j < d ==> !(X[i] && X[j])
lemma lext: forall X: barr, Y: barr, d, v {HOLDM(Y,d), X[v]} :: d > 2 && 0 <= v && v < d && HOLDM(Y,d) && X[v] && (forall j {X[j]} :: 0 <= j && j < d ==> (X[j] <==> j == v)) && (forall j {Y[j]} :: 0 <= j && j < d-1 ==> (Y[j] <==> v <= j)) ==> HOLDS(X,Y,d)
group LBEG
  head@lin: LHEAD
  ones@lin: LONES(XN)
  alol@lin: LALOLS(XN)
  alo@lin: LALOS(XN)
  eq0@lin: LEQ0S(XN)
  chn@lin: LCHNS(XN)
  amo@lin: LAMOS(XN)
fn LinearEncode(cline)
  requires *XTEXT
  requires text2@lin: RD == 0
  requires file@lin: !OPENED
  ensures head@lin: OPENED ==> LHEAD
  ensures ones@lin: OPENED ==> LONES(XN)
  ensures alol@lin: OPENED ==> LALOLS(XN)
  ensures alo@lin: OPENED ==> LALOS(XN)
  ensures eq0@lin: OPENED ==> LEQ0S(XN)
  ensures chn@lin: OPENED ==> LCHNS(XN)
  ensures amo@lin: OPENED ==> LAMOS(XN)
  ensures count@lin: OPENED ==> LINE == LB + NX(NL) && CLEAN
  ensures ends@lin: OPENED ==> LENDS(NL)
  ensures lits@lin: OPENED ==> LLITS(NL)
  note sscanf next@lin by text,rd,pos,line,room,copy,nb,nbs,ne,nes,cw,cwn,cwgap,cwword: wp.pos > 0 ==> QNEXT(RD-1,lp.pos-wp.pos,lp.pos)
  note sscanf isw@lin by text,rd,pos,line,room,copy,nb,nbs,ne,nes,isw,next: wp.pos > 0 ==> ISW(word.el,LC[RD-1],LN[RD-1],lp.pos-wp.pos)
  note sscanf end@lin by text,rd,pos,line,room,copy,nb,nbs,ne,nes,cw,cwn: wp.pos == 0 ==> lp.pos == LN[RD-1] && ATP(RD-1,lp.pos) == NW(RD-1)
  note sscanf put@lin by text,rd,pos,line,room,copy,nb,nbs,ne,nes,cw,cwn,cwgap,cwword,at,next,end: POS == (wp.pos > 0 ? ATP(RD-1,lp.pos-wp.pos) : NW(RD-1)-1)
  inv 0 *XTEXT
  inv 0 rd@lin: 0 <= RD && RD <= NL && OPENED
  inv 0 dom@lin: PL < RD ==> DOMS(domain,ND(RD)) && index.len == XN+1
  inv 0 nd@lin: ND(RD) <= XN
  inv 0 done@lin: isdone <==> FC < RD
  inv 0 idx@lin: FC < RD ==> INDX(index,XN)
  inv 0 num@lin: num_clause == (PL < RD ? NX(NL) : 0) && num_var == (PL < RD ? XN : 0)
  inv 0 nums@lin: RD <= FC ==> new_num_var == XSUM(DM,ND(RD)) - ND(RD) + count && new_num_clause == LSUM(DM,ND(RD))
  inv 0 before@lin: RD <= PL ==> ND(RD) == 0
  inv 0 doms@lin: FC <= RD ==> ND(RD) == XN
  inv 0 nocl@lin: RD <= FC ==> NX(RD) == 0
  inv 0 out@lin: LINE == (isdone ? LB + NX(RD) : 0) && CLEAN
  inv 0 head@lin: isdone ==> LHEAD
  inv 0 ones@lin: isdone ==> LONES(XN)
  inv 0 alol@lin: isdone ==> LALOLS(XN)
  inv 0 alo@lin: isdone ==> LALOS(XN)
  inv 0 eq0@lin: isdone ==> LEQ0S(XN)
  inv 0 chn@lin: isdone ==> LCHNS(XN)
  inv 0 amo@lin: isdone ==> LAMOS(XN)
  inv 0 ends@lin: LENDS(RD)
  inv 0 lits@lin: LLITS(RD)
  inv 1 *XTEXT
  inv 1 dom@lin: domain.len == XN+1 && index.len == XN+1 && 0 <= i && (forall v {domain[v]} :: 0 <= v && v < i ==> domain[v] == 2)
  inv 2 *XTEXT
  inv 2 dom@lin: DOMS(domain,XN)
  inv 2 idx@lin: 2 <= i && INDX(index,i-1)
  inv 2 in@lin: i <= XN+1
  inv 3 *XTEXT
  inv 3 dom@lin: DOMS(domain,XN)
  inv 3 idx@lin: INDX(index,XN)
  inv 3 head@lin: LHEAD
  inv 3 out@lin: 0 <= i && i <= XN+1 && LINE == (i == 0 ? 1 : LS(i)) && CLEAN
  inv 3 ones@lin: LONES(i-1)
  inv 3 alol@lin: LALOLS(i-1)
  inv 3 alo@lin: LALOS(i-1)
  inv 3 eq0@lin: LEQ0S(i-1)
  inv 3 chn@lin: LCHNS(i-1)
  inv 3 amo@lin: LAMOS(i-1)
  inv 4 *XTEXT
  inv 4 dom@lin: DOMS(domain,XN)
  inv 4 idx@lin: INDX(index,XN)
  inv 4 head@lin: LHEAD
  inv 4 out@lin: 0 <= j && j <= DM[i] && LINE == LS(i) && POS == j && LAST == 0
  inv 4 ones@lin: LONES(i-1)
  inv 4 alol@lin: LALOLS(i-1)
  inv 4 alo@lin: LALOS(i-1)
  inv 4 eq0@lin: LEQ0S(i-1)
  inv 4 chn@lin: LCHNS(i-1)
  inv 4 amo@lin: LAMOS(i-1)
  inv 4 cur@lin: forall k {MK2(i,k)} :: 0 <= k && k < j && MK2(i,k) ==> NUMT(LINE,k,IX(i)+k)
  inv 5 *XTEXT
  inv 5 dom@lin: DOMS(domain,XN)
  inv 5 idx@lin: INDX(index,XN)
  inv 5 head@lin: LHEAD
  inv 5 out@lin: 0 <= j && j <= DM[i]-2 && LINE == LS(i)+3+3*j && CLEAN
  inv 5 ones@lin: LONES(i-1)
  inv 5 alol@lin: LALOLS(i-1)
  inv 5 alo@lin: LALOS(i-1)
  inv 5 eq0@lin: LEQ0S(i-1)
  inv 5 chn@lin: LCHNS(i-1)
  inv 5 amo@lin: LAMOS(i-1)
  inv 5 cur@lin: LALOL(i) && LEQ0(i)
  inv 5 curalo@lin: forall k {MK2(i,k)} :: 0 <= k && k < DM[i] && MK2(i,k) ==> NUMT(LS(i),k,IX(i)+k)
  inv 5 curchn@lin: forall k {MK2(i,k)} :: 0 <= k && k < j && MK2(i,k) ==> LCHN(i,k)
  inv 6 *XTEXT
  inv 6 dom@lin: DOMS(domain,XN)
  inv 6 idx@lin: INDX(index,XN)
  inv 6 head@lin: LHEAD
  inv 6 out@lin: 0 <= j && j <= DM[i]-1 && LINE == LS(i)+3+3*(DM[i]-2)+j && CLEAN
  inv 6 ones@lin: LONES(i-1)
  inv 6 alol@lin: LALOLS(i-1)
  inv 6 alo@lin: LALOS(i-1)
  inv 6 eq0@lin: LEQ0S(i-1)
  inv 6 chn@lin: LCHNS(i-1)
  inv 6 amo@lin: LAMOS(i-1)
  inv 6 cur@lin: LALOL(i) && LEQ0(i)
  inv 6 curalo@lin: forall k {MK2(i,k)} :: 0 <= k && k < DM[i] && MK2(i,k) ==> NUMT(LS(i),k,IX(i)+k)
  inv 6 curchn@lin: forall k {MK2(i,k)} :: 0 <= k && k < DM[i]-2 && MK2(i,k) ==> LCHN(i,k)
  inv 6 curamo@lin: forall k {MK2(i,k)} :: 0 <= k && k < j && MK2(i,k) ==> LAMO(i,k)
  inv 7 *XTEXT
  inv 7 *LBEG
  inv 7 dom@lin: DOMS(domain,XN)
  inv 7 idx@lin: INDX(index,XN)
  inv 7 rd@lin: FC < RD && RD <= NL && XCL(LC,LN,RD-1)
  inv 7 pos@lin: 0 <= lp.pos && lp.pos <= LN[RD-1] && BOUND(LC[RD-1],LN[RD-1],lp.pos)
  inv 7 line@lin: line.el == LC[RD-1] && line.len == LN[RD-1]
  inv 7 room@lin: word.len == LN[RD-1]+1
  inv 7 out@lin: LINE == LB + NX(RD-1) && LAST == 0
  inv 7 at@lin by text,words,rd,pos,line,room,out,at,copy,scan3,scan4,next,isw,end,put,cw,cwn,nb,ne,done,def.cw0: POS == (ATP(RD-1,lp.pos) == NW(RD-1) ? NW(RD-1)-1 : ATP(RD-1,lp.pos))
  inv 7 ends@lin: LENDS(RD-1)
  inv 7 lits@lin: LLITS(RD-1)
  inv 7 cur@lin by text,words,rd,pos,line,room,out,at,copy,scan3,scan4,next,isw,end,put,cur,cur1,cur2,xnn,mk2,dom,idx: forall k {MK2(RD-1,k)} :: 0 <= k && k < NW(RD-1)-1 && k < ATP(RD-1,lp.pos) && MK2(RD-1,k) && DM[XVAR(RD-1,k)] > 2 ==> NUMT(LINE,k,(XEQ(RD-1,k) ? IX(XVAR(RD-1,k))+XVAL(RD-1,k) : 0-(IX(XVAR(RD-1,k))+XVAL(RD-1,k))))
  inv 7 cur2@lin by text,words,rd,pos,line,room,out,at,copy,scan3,scan4,next,isw,end,put,cur,cur1,cur2,xnn,mk2,dom,idx: forall k {MK2(RD-1,k)} :: 0 <= k && k < NW(RD-1)-1 && k < ATP(RD-1,lp.pos) && MK2(RD-1,k) && DM[XVAR(RD-1,k)] <= 2 ==> NUMT(LINE,k,((XVAL(RD-1,k) == 1 <==> XEQ(RD-1,k)) ? IX(XVAR(RD-1,k)) : 0-IX(XVAR(RD-1,k))))
  inv 8 pos@lin: entry(lp.pos) <= lp.pos && lp.pos <= NB(LC[RD-1],LN[RD-1],entry(lp.pos))
  inv 9 pos@lin: entry(lp.pos) <= lp.pos && lp.pos <= NE(LC[RD-1],LN[RD-1],entry(lp.pos)) && wp.pos == lp.pos - entry(lp.pos)
  inv 9 copy@lin: forall j {word[j]} :: 0 <= j && j < wp.pos ==> word[j] == LC[RD-1][entry(lp.pos)+j]
