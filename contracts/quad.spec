# C11: QuadraticEncode.  PAIRS(d,p): pairs (i,j) with i < j < d and i < p; VSUM, QSUM: values, lines for the first x variables.
function PAIRS(int, int): int
function VSUM(iarr, int): int
function QSUM(iarr, int): int
axiom pairs0: forall d, p {PAIRS(d,p)} :: PAIRS(d,0) == 0
axiom pairs1: forall d, p {PAIRS(d,p+1)} :: p >= 0 ==> PAIRS(d,p+1) == PAIRS(d,p) + d - p - 1
axiom def.pairs: forall d, p {PAIRS(d,p), UNF(p)} :: p > 0 ==> PAIRS(d,p) == PAIRS(d,p-1) + d - p
lemma pairsum by pairs0,def.pairs induct p: forall d, p {PAIRS(d,p)} :: p >= 0 ==> 2*PAIRS(d,p) == p*(2*d - p - 1)
axiom vsum0: forall D: iarr, x {VSUM(D,x)} :: VSUM(D,0) == 0
axiom vsum1: forall D: iarr, x {VSUM(D,x), D[x+1]} :: x >= 0 ==> VSUM(D,x+1) == VSUM(D,x) + D[x+1]
axiom qsum0: forall D: iarr, x {QSUM(D,x)} :: QSUM(D,0) == 0
axiom def.qsum: forall D: iarr, x {QSUM(D,x), UNF(x)} :: x > 0 ==> QSUM(D,x) == QSUM(D,x-1) + 1 + PAIRS(D[x],D[x])
axiom qsum1: forall D: iarr, x {QSUM(D,x), D[x+1]} :: x >= 0 ==> QSUM(D,x+1) == QSUM(D,x) + 1 + PAIRS(D[x+1],D[x+1])
define QHEAD := LLEN[0] == 4 && WRDT(0,0,WORD("p")) && WRDT(0,1,WORD("cnf")) && NUMT(0,2,VSUM(DM,XN)) && NUMT(0,3,NX(NL) + QSUM(DM,XN))
lemma pairnn by pairs0,def.pairs induct p: forall d, p {PAIRS(d,p)} :: 0 <= p && p <= d ==> PAIRS(d,p) >= 0
lemma pairmono by pairs0,def.pairs induct q: forall d, p, q {PAIRS(d,p), PAIRS(d,q)} :: 0 <= p && p <= q && q <= d ==> PAIRS(d,p) <= PAIRS(d,q)
lemma qmono by def.qsum,pairnn,qsum0 induct n: forall D: iarr, v, n {QSUM(D,v), QSUM(D,n)} :: 0 <= v && v <= n && (forall k {D[k]} :: D[k] >= 1) ==> QSUM(D,v) <= QSUM(D,n)
# the lines for variable v start at line QL(v)
define QL(v) := 1 + QSUM(DM,v-1)
define QPAIR(v,p,q) := QL(v) + 1 + PAIRS(DM[v],p) + q - p - 1
lemma qstep by qsum1: forall D: iarr, v {QSUM(D,v-1), MK1(v)} :: v >= 1 ==> QSUM(D,v) == QSUM(D,v-1) + 1 + PAIRS(D[v],D[v])
lemma pairin by pairs1,pairmono: forall v, d, p, q {PAIRS(d,p), MK3(v,p,q)} :: 0 <= p && p < q && q < d ==> 0 <= PAIRS(d,p) + q - p - 1 && PAIRS(d,p) + q - p - 1 < PAIRS(d,p+1) && PAIRS(d,p+1) <= PAIRS(d,d)
define QALO(v) := LLEN[QL(v)] == 3*DM[v]
define QAMO(l,v,p,q) := LLEN[l] == 6 && LITT(l,0,0-v,p) && LITT(l,3,0-v,q)
define QLENS(n) := (forall v {MK1(v)} :: 1 <= v && v <= n && MK1(v) ==> QALO(v))
define QVALS(n) := (forall v, y {MK2(v,y)} :: 1 <= v && v <= n && MK1(v) && 0 <= y && y < DM[v] && MK2(v,y) ==> LITT(QL(v),3*y,v,y))
define QPAIRS(n) := (forall v, p, q {MK3(v,p,q)} :: 1 <= v && v <= n && MK1(v) && 0 <= p && p < q && q < DM[v] && MK3(v,p,q) ==> QAMO(QPAIR(v,p,q),v,p,q))
define QB := 1 + QSUM(DM,XN)
define QENDS(n) := (forall l {LC[l]} :: 0 <= l && l < n && XCL(LC,LN,l) ==> 0 <= NX(l) && NX(l) < NX(n) && LLEN[QB+NX(l)] == 3*(NW(l)-1)+1 && NUMT(QB+NX(l),3*(NW(l)-1),0))
define QLIT(o,l,k) := LITT(o,3*k,(XEQ(l,k) ? XVAR(l,k) : 0-XVAR(l,k)),XVAL(l,k))
define QLITS(n) := (forall l, k {MK2(l,k)} :: 0 <= l && l < n && XCL(LC,LN,l) && 0 <= k && k < NW(l)-1 && MK2(l,k) ==> QLIT(QB+NX(l),l,k))
define VARS(V,n) := (forall x {V[x]} :: 0 <= x && x < n ==> V[x] != null && alloc(V[x]) && V[x]->VAR == x+1 && V[x]->DOMAINSIZE == DM[x+1])
group QBEG
  head@quad: QHEAD
  lens@quad: QLENS(XN)
  vals@quad: QVALS(XN)
  pairs@quad: QPAIRS(XN)
group VTEXT
  text@quad: EXTD
  words@quad: XWORDS
  vars@quad: VAR_LIST.len == XN && VARS(VAR_LIST,XN)
fn QuadraticEncode(cline)
  requires *XTEXT
  requires text2@quad: RD == 0
  requires file@quad: !OPENED
  ensures head@quad: OPENED ==> QHEAD
  ensures count@quad: OPENED ==> LINE == QB + NX(NL) && CLEAN
  ensures lens@quad: OPENED ==> QLENS(XN)
  ensures vals@quad: OPENED ==> QVALS(XN)
  ensures pairs@quad: OPENED ==> QPAIRS(XN)
  ensures ends@quad: OPENED ==> QENDS(NL)
  ensures lits@quad: OPENED ==> QLITS(NL)
  note sscanf next@quad by text,rd,pos,line,room,copy,nb,nbs,ne,nes,cw,cwn,cwgap,cwword: wp.pos > 0 ==> QNEXT(RD-1,lp.pos-wp.pos,lp.pos)
  note sscanf isw@quad by text,rd,pos,line,room,copy,nb,nbs,ne,nes,isw,next: wp.pos > 0 ==> ISW(word.el,LC[RD-1],LN[RD-1],lp.pos-wp.pos)
  note sscanf end@quad by text,rd,pos,line,room,copy,nb,nbs,ne,nes,cw,cwn: wp.pos == 0 ==> lp.pos == LN[RD-1] && ATP(RD-1,lp.pos) == NW(RD-1)
  note sscanf put@quad by text,rd,pos,line,room,copy,nb,nbs,ne,nes,cw,cwn,cwgap,cwword,at,next,end: POS == 3*(wp.pos > 0 ? ATP(RD-1,lp.pos-wp.pos) : NW(RD-1)-1)
  inv 0 *XTEXT
  inv 0 rd@quad: 0 <= RD && RD <= NL && OPENED
  inv 0 vars@quad: VAR_LIST.len == ND(RD) && ND(RD) <= XN && VARS(VAR_LIST,ND(RD))
  inv 0 done@quad: isdone <==> FC < RD
  inv 0 nums@quad: num_var == VSUM(DM,ND(RD)) && num_clause == (PL < RD ? NX(NL) : 0) + QSUM(DM,ND(RD))
  inv 0 doms@quad: FC <= RD ==> ND(RD) == XN
  inv 0 nocl@quad: RD <= FC ==> NX(RD) == 0
  inv 0 out@quad: LINE == (isdone ? QB + NX(RD) : 0) && CLEAN
  inv 0 head@quad: isdone ==> QHEAD
  inv 0 lens@quad: isdone ==> QLENS(XN)
  inv 0 vals@quad: isdone ==> QVALS(XN)
  inv 0 pairs@quad: isdone ==> QPAIRS(XN)
  inv 0 ends@quad by text,text2,words,rd,doms,nocl,pos,line,out,at,ends,nb,nbs,cw,cwn,nclx0,nclx1,qsum0,qsum1,qmono: QENDS(RD)
  inv 0 lits@quad: QLITS(RD)
  inv 1 *VTEXT
  inv 1 head@quad: QHEAD
  inv 1 out@quad: 0 <= x && x <= XN && LINE == QL(x+1) && CLEAN
  inv 1 lens@quad: QLENS(x)
  inv 1 vals@quad: QVALS(x)
  inv 1 pairs@quad: QPAIRS(x)
  inv 2 *VTEXT
  inv 2 head@quad: QHEAD
  inv 2 out@quad: 0 <= y && y <= var_domain && LINE == QL(x+1) && POS == 3*y && LAST == 0
  inv 2 lens@quad: QLENS(x)
  inv 2 vals@quad: QVALS(x)
  inv 2 pairs@quad: QPAIRS(x)
  inv 2 cur@quad: forall k {MK2(x+1,k)} :: 0 <= k && k < y && MK2(x+1,k) ==> LITT(LINE,3*k,x+1,k)
  inv 3 *VTEXT
  inv 3 head@quad: QHEAD
  inv 3 out@quad: 0 <= p && p <= var_domain && LINE == QL(x+1) + 1 + PAIRS(var_domain,p) && CLEAN
  inv 3 lens@quad: QLENS(x+1)
  inv 3 vals@quad: QVALS(x+1)
  inv 3 pairs@quad: QPAIRS(x)
  inv 3 cur@quad: forall i, q {MK3(x+1,i,q)} :: 0 <= i && i < p && i < q && q < var_domain && MK3(x+1,i,q) ==> QAMO(QPAIR(x+1,i,q),x+1,i,q)
  inv 4 *VTEXT
  inv 4 head@quad: QHEAD
  inv 4 out@quad: p < q && q <= var_domain && LINE == QPAIR(x+1,p,q) && CLEAN
  inv 4 lens@quad: QLENS(x+1)
  inv 4 vals@quad: QVALS(x+1)
  inv 4 pairs@quad: QPAIRS(x)
  inv 4 cur@quad: forall i, k {MK3(x+1,i,k)} :: 0 <= i && i < p && i < k && k < var_domain && MK3(x+1,i,k) ==> QAMO(QPAIR(x+1,i,k),x+1,i,k)
  inv 4 row@quad: forall k {MK3(x+1,p,k)} :: p < k && k < q && MK3(x+1,p,k) ==> QAMO(QPAIR(x+1,p,k),x+1,p,k)
  inv 5 *XTEXT
  inv 5 *QBEG
  inv 5 rd@quad: FC < RD && RD <= NL && XCL(LC,LN,RD-1)
  inv 5 pos@quad: 0 <= lp.pos && lp.pos <= LN[RD-1] && BOUND(LC[RD-1],LN[RD-1],lp.pos)
  inv 5 line@quad: line.el == LC[RD-1] && line.len == LN[RD-1]
  inv 5 room@quad: word.len == LN[RD-1]+1
  inv 5 out@quad: LINE == QB + NX(RD-1) && LAST == 0
  inv 5 at@quad by text,words,rd,pos,line,room,out,at,copy,scan3,scan4,next,isw,end,put,cw,cwn,nb,ne,done,def.cw0: POS == 3*(ATP(RD-1,lp.pos) == NW(RD-1) ? NW(RD-1)-1 : ATP(RD-1,lp.pos))
  inv 5 ends@quad: QENDS(RD-1)
  inv 5 lits@quad: QLITS(RD-1)
  inv 5 cur@quad by text,words,rd,pos,line,room,out,at,copy,scan3,scan4,next,isw,end,put,cur,cur1,cur2,mk2: forall k {MK2(RD-1,k)} :: 0 <= k && k < NW(RD-1)-1 && k < ATP(RD-1,lp.pos) && MK2(RD-1,k) ==> NUMT(LINE,3*k,(XEQ(RD-1,k) ? XVAR(RD-1,k) : 0-XVAR(RD-1,k)))
  inv 5 cur1@quad by text,words,rd,pos,line,room,out,at,copy,scan3,scan4,next,isw,end,put,cur,cur1,cur2,mk2: forall k {MK2(RD-1,k)} :: 0 <= k && k < NW(RD-1)-1 && k < ATP(RD-1,lp.pos) && MK2(RD-1,k) ==> TOK[LINE][3*k+1] == WORD("=") && KND[LINE][3*k+1] == 3
  inv 5 cur2@quad by text,words,rd,pos,line,room,out,at,copy,scan3,scan4,next,isw,end,put,cur,cur1,cur2,mk2: forall k {MK2(RD-1,k)} :: 0 <= k && k < NW(RD-1)-1 && k < ATP(RD-1,lp.pos) && MK2(RD-1,k) ==> TOK[LINE][3*k+2] == XVAL(RD-1,k) && KND[LINE][3*k+2] == 1
  inv 6 pos@quad: entry(lp.pos) <= lp.pos && lp.pos <= NB(LC[RD-1],LN[RD-1],entry(lp.pos))
  inv 7 pos@quad: entry(lp.pos) <= lp.pos && lp.pos <= NE(LC[RD-1],LN[RD-1],entry(lp.pos)) && wp.pos == lp.pos - entry(lp.pos)
  inv 7 copy@quad: forall j {word[j]} :: 0 <= j && j < wp.pos ==> word[j] == LC[RD-1][entry(lp.pos)+j]
fn Variable::Variable/2
  opt inline
