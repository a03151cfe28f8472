# C09: BuildFormula.  FW: the first word of a line with the literal of word k; DC: distinct literals before word k; SEL: word of the i-th.
function FW(iarr, int, int): int
function DC(iarr, int, int): int
function SEL(iarr, int, int): int
define SAMEW(s,n,j,k) := WVAR(s,n,j) == WVAR(s,n,k) && WVAL(s,n,j) == WVAL(s,n,k) && (WEQ(s,n,j) <==> WEQ(s,n,k))
axiom fw: forall s: iarr, n, k {FW(s,n,k)} :: 0 <= k ==> 0 <= FW(s,n,k) && FW(s,n,k) <= k && SAMEW(s,n,FW(s,n,k),k)
axiom fwmin: forall s: iarr, n, j, k {FW(s,n,k), WVAR(s,n,j)} :: 0 <= k && 0 <= j && SAMEW(s,n,j,k) ==> FW(s,n,k) <= j
lemma fwidem by fw,fwmin: forall s: iarr, n, k {FW(s,n,FW(s,n,k))} :: 0 <= k ==> FW(s,n,FW(s,n,k)) == FW(s,n,k)
axiom dc0: forall s: iarr, n, k {DC(s,n,k)} :: DC(s,n,0) == 0
axiom dc1: forall s: iarr, n, x, y {DC(s,n,x), DC(s,n,y)} :: 0 <= y && x == y+1 ==> DC(s,n,x) == DC(s,n,y) + (FW(s,n,y) == y ? 1 : 0)
axiom def.dc: forall s: iarr, n, k {DC(s,n,k), UNF(k)} :: 0 < k ==> DC(s,n,k) == DC(s,n,k-1) + (FW(s,n,k-1) == k-1 ? 1 : 0)
axiom sel: forall s: iarr, n, k {DC(s,n,k), FW(s,n,k)} :: 0 <= k && FW(s,n,k) == k ==> SEL(s,n,DC(s,n,k)) == k
lemma dcnn by dc0,def.dc induct k: forall s: iarr, n, k {DC(s,n,k)} :: 0 <= k ==> 0 <= DC(s,n,k)
lemma dclt by dc0,def.dc,dcnn induct k: forall s: iarr, n, k, j {DC(s,n,k), DC(s,n,j)} :: 0 <= j && j < k ==> DC(s,n,j) + (FW(s,n,j) == j ? 1 : 0) <= DC(s,n,k)
lemma selok by dc0,def.dc,dcnn,sel induct k: forall s: iarr, n, k, i {DC(s,n,k), SEL(s,n,i)} :: 0 <= k && 0 <= i && i < DC(s,n,k) ==> 0 <= SEL(s,n,i) && SEL(s,n,i) < k && FW(s,n,SEL(s,n,i)) == SEL(s,n,i) && DC(s,n,SEL(s,n,i)) == i
lemma dup by dc0,dcnn,dclt,sel,fw,fwidem: forall s: iarr, n, k {FW(s,n,k), DC(s,n,k)} :: 0 <= k && FW(s,n,k) != k ==> FW(s,n,FW(s,n,k)) == FW(s,n,k) && 0 <= FW(s,n,k) && FW(s,n,k) < k && 0 <= DC(s,n,FW(s,n,k)) && DC(s,n,FW(s,n,k)) < DC(s,n,k) && SEL(s,n,DC(s,n,FW(s,n,k))) == FW(s,n,k)
define XLIT(l,k) := lit(XVAR(l,k),XVAL(l,k),XEQ(l,k))
define XSEL(l,i) := SEL(LC[l],LN[l],i)
define XDC(l,k) := DC(LC[l],LN[l],k)
define XFW(l,k) := FW(LC[l],LN[l],k)
# the file: domain lines in order, before the clauses
define PDOMS := XN == ND(NL) && (forall v {DM[v]} :: DM[v] >= 1) && (forall l {LC[l]} :: 0 <= l && l < NL && LC[l][0] == 100 ==> SCANN(STRNUM("d %d %d"),LC[l],0) == 2 && DSCAN(l,0) == ND(l)+1 && ND(l) < XN && DM[ND(l)+1] == DSCAN(l,1)) && (forall l {LC[l]} :: 0 <= l && l < NL && XCL(LC,LN,l) ==> ND(l) == XN)
group PTEXT
  text@prs: LINES
  doms@prs: PDOMS
  words@prs: XWORDS
# fields of a new variable
define VSAME(p) := p->VAR == old(p->VAR) && p->VAL == old(p->VAL) && p->DOMAINSIZE == old(p->DOMAINSIZE) && p->ATOMASSIGN.el == old(p->ATOMASSIGN.el) && p->ATOMLEVEL.el == old(p->ATOMLEVEL.el) && p->CLAUSEID.el == old(p->CLAUSEID.el) && p->ATOMINDEX.el == old(p->ATOMINDEX.el)
define VSAMEE(p) := p->ATOMASSIGN.el == entry(p->ATOMASSIGN.el) && p->ATOMLEVEL.el == entry(p->ATOMLEVEL.el) && p->CLAUSEID.el == entry(p->CLAUSEID.el) && p->ATOMINDEX.el == entry(p->ATOMINDEX.el)
define VNEW(p,n) := forall d {p->ATOMASSIGN[d]} {p->ATOMLEVEL[d]} {p->CLAUSEID[d]} {p->ATOMINDEX[d]} :: 0 <= d && d < n ==> p->ATOMASSIGN[d] == 0 && p->ATOMLEVEL[d] == 0-10 && p->CLAUSEID[d] == 0-10 && p->ATOMINDEX[d] == 0-1
fn Variable::Variable/2(var, domain)
  opt contract
  opt ctor
  requires pos@prs: domain >= 0
  inv 0 new@prs: 0 <= i && VNEW(this,i)
  inv 0 same@prs: forall p:Variable {p->ATOMASSIGN.el} {p->ATOMLEVEL.el} {p->CLAUSEID.el} {p->ATOMINDEX.el} :: p != this ==> VSAMEE(p)
  ensures made@prs: this->VAR == var && this->DOMAINSIZE == domain && this->VAL == 0-1
  ensures new@prs: VNEW(this,domain)
  ensures same@prs: forall p:Variable {p->VAR} {p->VAL} {p->DOMAINSIZE} {p->ATOMASSIGN.el} {p->ATOMLEVEL.el} {p->CLAUSEID.el} {p->ATOMINDEX.el} :: p != this ==> VSAME(p)
fn Variable::Variable/2(var, domain)
  inv 0 score@prc,prw: forall d {this->VSIDS_SCORE[d]} :: 0 <= d && d < i ==> this->VSIDS_SCORE[d] == 0
  inv 0 sames@prc,prw: forall p:Variable {p->VSIDS_SCORE.el} :: p != this ==> p->VSIDS_SCORE.el == entry(p->VSIDS_SCORE.el)
  ensures score@prc,prw: (forall d {this->VSIDS_SCORE[d]} :: 0 <= d && d < domain ==> this->VSIDS_SCORE[d] == 0) && this->CLAUSEID.len == domain
  ensures sames@prc,prw: forall p:Variable {p->VSIDS_SCORE.el} {p->CLAUSEID.len} :: p != this ==> p->VSIDS_SCORE.el == old(p->VSIDS_SCORE.el) && p->CLAUSEID.len == old(p->CLAUSEID.len)
group PHEUR
  score@prc,prw: SCORES
  vars0@prc,prw: NV >= 1 ==> VARS0
  heur@prc,prw: heuristic == VSIDS || heuristic == VSIDS_pos || heuristic == BK || heuristic == lazy
# what holds of the variables read
define VOK(n) := VARLIST.len == n+1 && (forall v {VARLIST[v]} :: 0 <= v && v <= n ==> VARLIST[v] != null && alloc(VARLIST[v]) && VARLIST[v]->VAR == v && DOM(v) == (v == 0 ? 0 : DM[v]) && VALOF(v) == (v == 0 ? 0 : 0-1))
define VCELLS := forall v, d {A(v,d)} {LV(v,d)} {CID(v,d)} {IDX(v,d)} :: CELL(v,d) ==> A(v,d) == 0 && LV(v,d) == 0-10 && CID(v,d) == 0-10 && IDX(v,d) == 0-1
# single-valued variables up to v
function ONE(iarr, int): int
axiom one0: forall D: iarr, v {ONE(D,v)} :: ONE(D,0) == 0
axiom one1: forall D: iarr, x, y {ONE(D,x), ONE(D,y)} :: 0 <= y && x == y+1 ==> ONE(D,x) == ONE(D,y) + (D[x] == 1 ? 1 : 0)
axiom def.one: forall D: iarr, v {ONE(D,v), UNF(v)} :: 0 < v ==> ONE(D,v) == ONE(D,v-1) + (D[v] == 1 ? 1 : 0)
lemma onenn by one0,def.one induct v: forall D: iarr, v {ONE(D,v)} :: 0 <= v ==> 0 <= ONE(D,v)
lemma onelt by one0,def.one,onenn induct v: forall D: iarr, v, u {ONE(D,v), ONE(D,u)} :: 0 <= u && u < v ==> ONE(D,u) <= ONE(D,v) && (u+1 <= v && D[u+1] == 1 ==> ONE(D,u) + 1 <= ONE(D,v))
define ONES(n) := forall v {MK1(v)} :: 1 <= v && v <= n && DM[v] == 1 && MK1(v) ==> 0 <= ONE(DM,v-1) && ONE(DM,v-1) < ONE(DM,n) && SZ(NX(NL)+ONE(DM,v-1)) == 1 && AT(NX(NL)+ONE(DM,v-1),0) == lit(v,0,true)
# the clauses of the lines before n
define CSIZE(n) := forall l {LC[l]} :: 0 <= l && l < n && XCL(LC,LN,l) ==> 0 <= NX(l) && NX(l) < NX(n) && SZ(NX(l)) == XDC(l,NW(l)-1)
define CLITS(n) := forall l, i {MK2(l,i)} :: 0 <= l && l < n && XCL(LC,LN,l) && 0 <= i && i < XDC(l,NW(l)-1) && MK2(l,i) ==> AT(NX(l),i) == XLIT(l,XSEL(l,i))
group PST
  vcell@prs: VCELLS
  cwf@prs: forall c {CLAUSELIST[c]} :: INRANGE(c) ==> CLAUSELIST[c] != null && alloc(CLAUSELIST[c])
  wfc@prs: forall c, b {CLAUSELIST[c],CLAUSELIST[b]} :: INRANGE(c) && INRANGE(b) && c != b ==> CLAUSELIST[c] != CLAUSELIST[b]
  wfa@prs: forall c, k {AT(c,k)} :: INRANGE(c) && 0 <= k && k < SZ(c) ==> litok(AT(c,k))
  nodup@prs: forall c, m, q {AT(c,m),AT(c,q)} :: INRANGE(c) && 0 <= m && m < q && q < SZ(c) ==> AT(c,m) != AT(c,q)
  num@prs: forall c {CLAUSELIST[c]} :: INRANGE(c) ==> NUM(c) == SZ(c) && SZ(c) >= 0 && CLV(c) == 0-1
  zero@prs: LEVEL == 0 && DECSTACK.len == 0 && UNITLIST.lo <= UNITLIST.hi
  uni@prs: forall p {UNITLIST.el[p]} :: UNITLIST.lo <= p && p < UNITLIST.hi ==> INRANGE(UNITLIST.el[p]) && SZ(UNITLIST.el[p]) == 1
  pend@prs: forall c {CLAUSELIST[c]} :: INRANGE(c) && SZ(c) == 1 ==> INU(c)
  conf@prs: CONFLICT ==> INRANGE(CONFLICTINGCLAUSE) && SZ(CONFLICTINGCLAUSE) == 0
  nofalse@prs: forall c {CLAUSELIST[c]} :: INRANGE(c) && SZ(c) == 0 ==> CONFLICT
# the clause being read: words before p of line RD-1
define KK(p) := ATP(RD-1,p) == NW(RD-1) ? NW(RD-1)-1 : ATP(RD-1,p)
fn Formula::BuildFormula(cline)
  requires *PTEXT
  requires text2@prs: RD == 0
  requires fresh@prs: VARLIST.len == 0 && CLAUSELIST.len == 0 && UNITLIST.lo == UNITLIST.hi && DECSTACK.len == 0 && LEVEL == 0 && !CONFLICT
  ensures vars@prs: VOK(XN)
  ensures *PST
  ensures count@prs: NC == NX(NL) + ONE(DM,XN)
  ensures size@prs: CSIZE(NL)
  ensures lits@prs: CLITS(NL)
  ensures ones@prs: ONES(XN)
  note sscanf next@prs by text,rd,pos,line,room,copy,nb,nbs,ne,nes,cw,cwn,cwgap,cwword: wp.pos > 0 ==> QNEXT(RD-1,lp.pos-wp.pos,lp.pos)
  note sscanf isw@prs by text,rd,pos,line,room,copy,nb,nbs,ne,nes,isw,next: wp.pos > 0 ==> ISW(word.el,LC[RD-1],LN[RD-1],lp.pos-wp.pos)
  note sscanf end@prs by text,rd,pos,line,room,copy,nb,nbs,ne,nes,cw,cwn: wp.pos == 0 ==> lp.pos == LN[RD-1] && ATP(RD-1,lp.pos) == NW(RD-1)
  note sscanf put@prs by text,rd,pos,line,room,copy,nb,nbs,ne,nes,cw,cwn,cwgap,cwword,at,next,end: temp_clause->ATOM_LIST.len == XDC(RD-1,(wp.pos > 0 ? ATP(RD-1,lp.pos-wp.pos) : NW(RD-1)-1))
  site hasAtom lit@prs by text,words,rd,pos,line,room,copy,scan3,scan4,next,isw,end,put,cw,cwn,nb,ne,def.cw0: wp.pos > 0 && ATP(RD-1,lp.pos-wp.pos) < NW(RD-1)-1 && temp_atom == XLIT(RD-1,ATP(RD-1,lp.pos-wp.pos)) && litok(temp_atom)
  site addAtom one@prs by text,words,rd,pos,put,lit,cur,iff,fw,dup,cw: XFW(RD-1,ATP(RD-1,lp.pos-wp.pos)) == ATP(RD-1,lp.pos-wp.pos)
  inv 0 *PTEXT
  inv 0 rd@prs: 0 <= RD && RD <= NL
  inv 0 vars@prs: VOK(ND(RD))
  inv 0 *PST
  inv 0 count@prs: clause_num == NX(RD) && NC == NX(RD)
  inv 0 size@prs: CSIZE(RD)
  inv 0 lits@prs: CLITS(RD)
  inv 1 *PTEXT
  inv 1 rd@prs: 0 < RD && RD <= NL && XCL(LC,LN,RD-1)
  inv 1 vars@prs: VOK(XN)
  inv 1 *PST
  inv 1 pos@prs: 0 <= lp.pos && lp.pos <= LN[RD-1] && BOUND(LC[RD-1],LN[RD-1],lp.pos)
  inv 1 line@prs: line.el == LC[RD-1] && line.len == LN[RD-1]
  inv 1 room@prs: word.len == LN[RD-1]+1
  inv 1 count@prs: clause_num == NX(RD-1) && NC == NX(RD-1)
  inv 1 size@prs: CSIZE(RD-1)
  inv 1 lits@prs: CLITS(RD-1)
  inv 1 tmp@prs: temp_clause != null && alloc(temp_clause) && NOTIN(temp_clause)
  inv 1 tnum@prs: temp_clause->NumUnAss == temp_clause->ATOM_LIST.len && temp_clause->LEVEL == 0-1
  inv 1 at@prs by text,words,rd,pos,line,room,at,copy,scan3,scan4,next,isw,end,put,cw,cwn,nb,ne,def.cw0,dc0,dc1,cur,iff,selok,fw,fwmin,fwidem,dclt,sel,lit,one: temp_clause->ATOM_LIST.len == XDC(RD-1,KK(lp.pos))
  inv 1 cur@prs: forall i {temp_clause->ATOM_LIST[i]} {XSEL(RD-1,i)} :: 0 <= i && i < temp_clause->ATOM_LIST.len ==> temp_clause->ATOM_LIST[i] == XLIT(RD-1,XSEL(RD-1,i))
  inv 2 pos@prs: entry(lp.pos) <= lp.pos && lp.pos <= NB(LC[RD-1],LN[RD-1],entry(lp.pos))
  inv 3 pos@prs: entry(lp.pos) <= lp.pos && lp.pos <= NE(LC[RD-1],LN[RD-1],entry(lp.pos)) && wp.pos == lp.pos - entry(lp.pos)
  inv 3 copy@prs: forall j {word[j]} :: 0 <= j && j < wp.pos ==> word[j] == LC[RD-1][entry(lp.pos)+j]
  inv 5 *PTEXT
  inv 5 rd@prs: RD == NL
  inv 5 vars@prs: VOK(XN)
  inv 5 *PST
  inv 5 range@prs: 1 <= i && i <= XN+1
  inv 5 count@prs: clause_num == NX(NL) + ONE(DM,i-1) && NC == NX(NL) + ONE(DM,i-1)
  inv 5 size@prs: CSIZE(NL)
  inv 5 lits@prs: CLITS(NL)
  inv 5 ones@prs: ONES(i-1)
fn Variable::addRecord(c_id, d_id, flag)
  opt contract
fn Formula::BuildFormula(cline)
  requires heur@prc,prw: heuristic == VSIDS || heuristic == VSIDS_pos || heuristic == BK || heuristic == lazy
  inv 0 *PHEUR
  inv 1 *PHEUR
  inv 1 newp@prc by newp,nocpush,noclpush,lit,vars,mode,tmp,recl,count,rd,doms,at: forall v, d {VARLIST[v]->ATOMRECPOS[d].len} :: CELL(v,d) ==> NOC(VARLIST[v]->ATOMRECPOS[d].el, VARLIST[v]->ATOMRECPOS[d].len, NC) == NOCL(temp_clause->ATOM_LIST.el,temp_clause->ATOM_LIST.len,lit(v,d,true))
  inv 1 newn@prc by newn,nocpush,noclpush,lit,vars,mode,tmp,recl,count,rd,doms,at: forall v, d {VARLIST[v]->ATOMRECNEG[d].len} :: CELL(v,d) ==> NOC(VARLIST[v]->ATOMRECNEG[d].el, VARLIST[v]->ATOMRECNEG[d].len, NC) == NOCL(temp_clause->ATOM_LIST.el,temp_clause->ATOM_LIST.len,lit(v,d,false))
  inv 5 *PHEUR
  inv 4 score@prc,prw: SCORES
fn Formula::BuildFormula(cline)
  ensures lits2@prs by lits,size: forall l, i {AT(NX(l),i)} :: 0 <= l && l < NL && XCL(LC,LN,l) && 0 <= i && i < XDC(l,NW(l)-1) && MK2(l,i) ==> AT(NX(l),i) == XLIT(l,XSEL(l,i))
