# The counter-based search: assignments, propagation, conflict analysis and the non-chronological loop.
define AGR(l) := forall v, d {A(v,d)} {LV(v,d)} :: CELL(v,d) && A(v,d) != 0 && LV(v,d) <= l ==> (A(v,d) == 1 <==> MV(v) == d)
group LSTATE
  lev: LEVEL >= 0 && (forall v, d {A(v,d)} {LV(v,d)} :: CELL(v,d) ==> LV(v,d) <= LEVEL)
  clev: forall c {CLAUSELIST[c]} :: INRANGE(c) ==> CLV(c) <= LEVEL
  ulist: UNITLIST.lo <= UNITLIST.hi
  uni: forall p {UNITLIST.el[p]} :: UNITLIST.lo <= p < UNITLIST.hi ==> INRANGE(UNITLIST.el[p]) && (CLV(UNITLIST.el[p]) == -1 ==> NUM(UNITLIST.el[p]) <= 1)
  conf: CONFLICT ==> INRANGE(CONFLICTINGCLAUSE) && CLV(CONFLICTINGCLAUSE) == -1 && NUM(CONFLICTINGCLAUSE) == 0
  pend: forall c {CLAUSELIST[c]} :: INRANGE(c) && CLV(c) == -1 && NUM(c) == 1 ==> INU(c)
  nofalse: forall c {CLAUSELIST[c]} :: INRANGE(c) && CLV(c) == -1 && NUM(c) == 0 ==> CONFLICT
  vall: forall v, d {A(v,d)} {LV(v,d)} :: CELL(v,d) && VALOF(v) != -1 && A(v,d) == 0 ==> CONFLICT && LV(v,VALOF(v)) == LEVEL
define CONTRA(a,b) := a.VAR == b.VAR && (a.VAL == b.VAL ? a.EQUAL != b.EQUAL : (a.EQUAL && b.EQUAL))
define FAL(v,d) := lit(v,d,A(v,d) == -1)
define RAT(v,d,k) := CLAUSELIST[VARLIST[v]->CLAUSEID[d]]->ATOM_LIST.el[k]
define RSZ(v,d) := CLAUSELIST[VARLIST[v]->CLAUSEID[d]]->ATOM_LIST.len
define DECOF(v,d) := DECSTACK[IDX(v,d)]
group RSN
  cidr: forall v, d {CID(v,d)} {A(v,d)} :: CELL(v,d) && A(v,d) != 0 ==> CID(v,d) >= 0 - 2 && CID(v,d) < NC
  clr: forall v, d {CID(v,d)} :: CELL(v,d) && A(v,d) != 0 && CID(v,d) >= 0 ==> CLV(CID(v,d)) == LV(v,d)
  rat: forall v, d, k {RAT(v,d,k)} :: CELL(v,d) && A(v,d) != 0 && CID(v,d) >= 0 && 0 <= k && k < RSZ(v,d) ==> CONTRA(RAT(v,d,k),FAL(v,d)) || (isfalse(RAT(v,d,k)) && LVL(RAT(v,d,k)) <= LV(v,d))
  renta: forall v, d {CID(v,d)} :: CELL(v,d) && A(v,d) != 0 && CID(v,d) == 0 - 2 ==> A(v,d) == 1
  rentb: forall v, d, e {CID(v,d),A(v,e)} :: CELL(v,d) && CELL(v,e) && e != d && A(v,d) != 0 && CID(v,d) == 0 - 2 ==> A(v,e) == -1
  rentc: forall v, d {CID(v,d)} :: CELL(v,d) && A(v,d) != 0 && CID(v,d) == 0 - 2 ==> (exists e {LV(v,e)} :: CELL(v,e) && e != d && LV(v,e) == LV(v,d))
  rdec: forall v, d {CID(v,d)} :: CELL(v,d) && A(v,d) != 0 && CID(v,d) == -1 ==> 0 <= IDX(v,d) && IDX(v,d) < DECSTACK.len && DECOF(v,d).VAR == v && LV(v,DECOF(v,d).VAL) == LV(v,d) && (DECOF(v,d).VAL == d || (A(v,DECOF(v,d).VAL) == 1 && A(v,d) == -1))
define KEEP(v,d) := A(v,d) == old(A(v,d)) && LV(v,d) == old(LV(v,d)) && CID(v,d) == old(CID(v,d)) && IDX(v,d) == old(IDX(v,d))
fn Formula::checkEntail(var)
  inv 0 none@cnt: !flag ==> domainvalue == -1 && (forall d {A(var,d)} :: 0 <= d < j ==> A(var,d) != 0)
  inv 0 one@cnt: flag ==> 0 <= domainvalue && domainvalue < j && A(var,domainvalue) == 0 && (forall d {A(var,d)} :: 0 <= d < j && d != domainvalue ==> A(var,d) != 0)
  ensures mv@agr: result != -1 && result != MV(var) && 0 <= MV(var) && MV(var) < DOM(var) ==> A(var,MV(var)) != 0
  ensures only@cnt: result != -1 ==> 0 <= result && result < DOM(var) && A(var,result) == 0 && (forall d {A(var,d)} :: 0 <= d < DOM(var) && d != result ==> A(var,d) != 0)
group RFRAME
  keep: forall v, d {A(v,d)} {LV(v,d)} {CID(v,d)} {IDX(v,d)} {old(LV(v,d))} :: CELL(v,d) && old(A(v,d)) != 0 ==> KEEP(v,d)
  newl: forall v, d {A(v,d)} {LV(v,d)} :: CELL(v,d) && old(A(v,d)) == 0 && A(v,d) != 0 ==> LV(v,d) == LEVEL && v == var
  clv: forall c {CLAUSELIST[c]} :: INRANGE(c) ==> CLV(c) == old(CLV(c)) || (old(CLV(c)) == -1 && CLV(c) == LEVEL)
  det: old(CONFLICT) ==> CONFLICT
  set: A(var,val) == (equals ? 1 : -1) && LV(var,val) == LEVEL
fn Formula::reduceTheory(var, equals, val)
  requires *WF @cnt
  requires *CSTATE @cnt
  requires *LSTATE -pend @cnt
  requires pend@cnt by pend,uni,uni2,uni3,eff,clv,nocnn,noclnn,lev,cell: forall c {CLAUSELIST[c]} :: INRANGE(c) && CLV(c) == -1 && NUM(c) == 1 ==> INU(c) || NOCR(var,equals,val,c) >= 1
  requires cell@cnt: CELL(var,val) && A(var,val) == 0 && VALOF(var) == -1
  inv 0 *CSTATE @cnt
  inv 0 *LSTATE -vall @cnt
  inv 0 *RFRAME @cnt
  inv 0 *RSN @rsn
  inv 0 agr@agr: old(AGR(LEVEL)) && MTRUE(lit(var,val,equals)) ==> AGR(LEVEL)
  inv 0 agr0@agr: old(AGR(0)) && (LEVEL == 0 ==> MTRUE(lit(var,val,equals))) ==> AGR(0)
  inv 0 vals@cnt: VALOF(var) == val && (forall v {VALOF(v)} :: 1 <= v && v < NV && v != var ==> VALOF(v) == old(VALOF(v)))
  inv 0 done@cnt: !CONFLICT ==> (forall d {A(var,d)} {LV(var,d)} :: 0 <= d < i ==> A(var,d) != 0)
  inv 1 *CSTATE @cnt
  inv 1 *LSTATE -vall @cnt
  inv 1 *RFRAME @cnt
  inv 1 *RSN @rsn
  inv 1 agr@agr: old(AGR(LEVEL)) && MTRUE(lit(var,val,equals)) ==> AGR(LEVEL)
  inv 1 agr0@agr: old(AGR(0)) && (LEVEL == 0 ==> MTRUE(lit(var,val,equals))) ==> AGR(0)
  inv 1 vals@cnt: VALOF(var) == val && (forall v {VALOF(v)} :: 1 <= v && v < NV && v != var ==> VALOF(v) == old(VALOF(v)))
  inv 1 done@cnt: !CONFLICT ==> (forall d {A(var,d)} {LV(var,d)} :: 0 <= d < i ==> A(var,d) != 0)
  requires *RSN @rsn
  requires uc@rsn: UNITCLAUSE >= 0 - 2 && UNITCLAUSE < NC
  requires uc0@rsn: UNITCLAUSE >= 0 ==> CLV(UNITCLAUSE) == -1 && NOCR(var,equals,val,UNITCLAUSE) >= 1 && (forall k {AT(UNITCLAUSE,k)} :: 0 <= k && k < SZ(UNITCLAUSE) ==> AT(UNITCLAUSE,k) == lit(var,val,equals) || isfalse(AT(UNITCLAUSE,k)))
  requires uc2@rsn: UNITCLAUSE == 0 - 2 ==> equals && (forall e {A(var,e)} :: CELL(var,e) && e != val ==> A(var,e) == -1) && (exists e {LV(var,e)} :: CELL(var,e) && e != val && LV(var,e) == LEVEL)
  requires mv@agr by mv: MDOM
  ensures *RSN @rsn
  ensures agr@agr: old(AGR(LEVEL)) && MTRUE(lit(var,val,equals)) ==> AGR(LEVEL)
  ensures agr0@agr: old(AGR(0)) && (LEVEL == 0 ==> MTRUE(lit(var,val,equals))) ==> AGR(0)
  ensures *RFRAME @cnt
  ensures *CSTATE @cnt
  ensures *LSTATE @cnt
  ensures vals@cnt: forall v {VALOF(v)} :: 1 <= v && v < NV && v != var ==> VALOF(v) == old(VALOF(v))
group PFRAME
  keep: forall v, d {A(v,d)} {LV(v,d)} {CID(v,d)} {IDX(v,d)} {old(LV(v,d))} :: CELL(v,d) && old(A(v,d)) != 0 ==> KEEP(v,d)
  newl: forall v, d {A(v,d)} {LV(v,d)} :: CELL(v,d) && old(A(v,d)) == 0 && A(v,d) != 0 ==> LV(v,d) == LEVEL
  clv: forall c {CLAUSELIST[c]} :: INRANGE(c) ==> CLV(c) == old(CLV(c)) || (old(CLV(c)) == -1 && CLV(c) == LEVEL)
fn Formula::unitPropagation()
  inv 0 pend@cnt by wfa,pend,none,popped,cnt,cntex,cntnn,clv,nofalse: forall c {CLAUSELIST[c]} :: INRANGE(c) && CLV(c) == -1 && NUM(c) == 1 ==> INU(c)
  requires *WF @cnt
  requires *CSTATE @cnt
  requires *LSTATE @cnt
  requires *RSN @rsn
  requires mv@agr by mv: MDOM && ALLSAT
  inv 0 *CSTATE @cnt
  inv 0 *LSTATE -pend @cnt
  inv 0 *PFRAME @cnt
  inv 0 *RSN @rsn
  inv 0 agr@agr: old(AGR(LEVEL)) ==> AGR(LEVEL)
  inv 0 agr0@agr: old(AGR(0)) ==> AGR(0)
  inv 1 *CSTATE @cnt
  inv 1 *LSTATE -pend @cnt
  inv 1 *PFRAME @cnt
  inv 1 *RSN @rsn
  inv 1 agr@agr: old(AGR(LEVEL)) ==> AGR(LEVEL)
  inv 1 agr0@agr: old(AGR(0)) ==> AGR(0)
  inv 1 pend@cnt by pend,uni,none,popped,cnt: forall c {CLAUSELIST[c]} :: INRANGE(c) && CLV(c) == -1 && NUM(c) == 1 ==> INU(c) || c == unit_clause
  inv 1 popped@cnt: INRANGE(unit_clause) && CLV(unit_clause) == -1 && NUM(unit_clause) <= 1 && !CONFLICT && UNITCLAUSE == unit_clause
  inv 1 none@cnt: forall k {AT(unit_clause,k)} :: 0 <= k && k < i ==> !isopen(AT(unit_clause,k))
  ensures *CSTATE @cnt
  ensures *LSTATE @cnt
  ensures *PFRAME @cnt
  ensures *RSN @rsn
  ensures agr@agr: old(AGR(LEVEL)) ==> AGR(LEVEL)
  ensures agr0@agr: old(AGR(0)) ==> AGR(0)
  ensures done@cnt: CONFLICT || UNITLIST.lo == UNITLIST.hi
define PFALSE(p) := forall k {p->ATOM_LIST[k]} :: 0 <= k && k < p->ATOM_LIST.len ==> litok(p->ATOM_LIST[k]) && isfalse(p->ATOM_LIST[k])
define PND(p) := forall m, q {p->ATOM_LIST[m],p->ATOM_LIST[q]} :: 0 <= m && m < q && q < p->ATOM_LIST.len ==> p->ATOM_LIST[m] != p->ATOM_LIST[q]
define PTOP(p) := exists k {p->ATOM_LIST[k]} :: 0 <= k && k < p->ATOM_LIST.len && LVL(p->ATOM_LIST[k]) == LEVEL
define PTOP2(p) := exists m, q {p->ATOM_LIST[m],p->ATOM_LIST[q]} :: 0 <= m && m < q && q < p->ATOM_LIST.len && LVL(p->ATOM_LIST[m]) == LEVEL && LVL(p->ATOM_LIST[q]) == LEVEL
define PTOP1(p) := PTOP(p) && !(PTOP2(p))
define OPENAT(a,l) := isopen(a) || LVL(a) > l
define TOPL(c) := CLV(c) == -1 ? LEVEL - 1 : CLV(c) - 1
group CLS
  nodup: forall c, m, q {AT(c,m),AT(c,q)} :: INRANGE(c) && 0 <= m && m < q && q < SZ(c) ==> AT(c,m) != AT(c,q)
define PCALL := forall c {CLAUSELIST[c]} :: INRANGE(c) && LEVEL >= 1 && CLV(c) != 0 ==> (exists m, q {AT(c,m),AT(c,q)} :: 0 <= m && m < q && q < SZ(c) && OPENAT(AT(c,m),TOPL(c)) && OPENAT(AT(c,q),TOPL(c)))
group PC
  pc: PCALL
fn Formula::falsifies(literal, decision)
  ensures iff@nc,wl: result <==> CONTRA(literal,decision)
define NEGOF(l) := lit(l.VAR,l.VAL,!l.EQUAL)
define KEPT2(p) := p->LEVEL == old(p->LEVEL) && p->NumUnAss == old(p->NumUnAss)
define RTOP(r,t) := exists k {r->ATOM_LIST[k]} :: 0 <= k && k < r->ATOM_LIST.len && LVL(r->ATOM_LIST[k]) == LEVEL && !CONTRA(r->ATOM_LIST[k],t)
fn Formula::resolve(clause, literal, reason)
  requires nd@nc,wl: PND(clause)
  requires false@nc,wl: PFALSE(clause)
  requires rsn@nc,wl: forall k {reason->ATOM_LIST[k]} :: 0 <= k && k < reason->ATOM_LIST.len ==> litok(reason->ATOM_LIST[k]) && (CONTRA(reason->ATOM_LIST[k],literal) || isfalse(reason->ATOM_LIST[k]))
  requires two@nc,wl by two,no,top,pw,lev,mode,kept,kept2,live,made,mem: PTOP2(clause)
  requires cid@nc,wl by cid,cidr,false,in,asg: CID(literal.VAR,literal.VAL) >= 0 - 2
  requires at@nc,wl by valx,valm,false,in,lev,at,wfa,top,kept,pw: !literal.EQUAL ==> (forall k {clause->ATOM_LIST[k]} :: 0 <= k && k < clause->ATOM_LIST.len && LVL(clause->ATOM_LIST[k]) == LEVEL && clause->ATOM_LIST[k].VAR == literal.VAR ==> LVL(literal) == LEVEL)
  requires rt1@nc,wl by rdec,false,in,valm: literal.EQUAL == false && LVL(literal) == LEVEL && CID(literal.VAR,literal.VAL) == -1 ==> RTOP(reason,literal)
  requires rt2@nc,wl by rentc,vals,vals2,false,in: literal.EQUAL == false && LVL(literal) == LEVEL && CID(literal.VAR,literal.VAL) == 0 - 2 ==> RTOP(reason,literal)
  requires rt3@nc,wl by rat,rtop,mode,clr,pc,nodup,cidr,false,in,asg,lev,wfa: literal.EQUAL == false && LVL(literal) == LEVEL && CID(literal.VAR,literal.VAL) >= 0 ==> RTOP(reason,literal)
  inv 0 kept2@nc,wl: forall p:Clause {p->LEVEL} {p->NumUnAss} {alloc(p)} :: old(alloc(p)) ==> KEPT2(p)
  inv 0 lvl@nc,wl: resolvent->LEVEL == -1
  inv 0 false@nc,wl: PFALSE(resolvent)
  inv 0 src@nc,wl: forall j {resolvent->ATOM_LIST[j]} :: 0 <= j && j < resolvent->ATOM_LIST.len ==> (exists k {clause->ATOM_LIST[k]} :: 0 <= k && k < i && resolvent->ATOM_LIST[j] == clause->ATOM_LIST[k])
  inv 0 nd@nc,wl: PND(resolvent)
  inv 0 fromc@nc,wl: forall k {clause->ATOM_LIST[k]} :: 0 <= k && k < i && !CONTRA(clause->ATOM_LIST[k],NEGOF(literal)) ==> (exists j {resolvent->ATOM_LIST[j]} :: 0 <= j && j < resolvent->ATOM_LIST.len && resolvent->ATOM_LIST[j] == clause->ATOM_LIST[k])
  inv 1 kept2@nc,wl: forall p:Clause {p->LEVEL} {p->NumUnAss} {alloc(p)} :: old(alloc(p)) ==> KEPT2(p)
  inv 1 lvl@nc,wl: resolvent->LEVEL == -1
  inv 1 false@nc,wl: PFALSE(resolvent)
  inv 1 nd@nc,wl: PND(resolvent)
  inv 1 fromc@nc,wl: forall k {clause->ATOM_LIST[k]} :: 0 <= k && k < clause->ATOM_LIST.len && !CONTRA(clause->ATOM_LIST[k],NEGOF(literal)) ==> (exists j {resolvent->ATOM_LIST[j]} :: 0 <= j && j < resolvent->ATOM_LIST.len && resolvent->ATOM_LIST[j] == clause->ATOM_LIST[k])
  inv 1 fromr@nc,wl: forall k {reason->ATOM_LIST[k]} :: 0 <= k && k < i && !CONTRA(reason->ATOM_LIST[k],literal) ==> (exists j {resolvent->ATOM_LIST[j]} :: 0 <= j && j < resolvent->ATOM_LIST.len && resolvent->ATOM_LIST[j] == reason->ATOM_LIST[k])
  ensures kept2@nc,wl: forall p:Clause {p->LEVEL} {p->NumUnAss} {alloc(p)} :: old(alloc(p)) ==> KEPT2(p)
  ensures lvl@nc,wl: result->LEVEL == -1
  ensures false@nc,wl: PFALSE(result)
  ensures nd@nc,wl: PND(result)
  ensures fromc@nc,wl: forall k {clause->ATOM_LIST[k]} :: 0 <= k && k < clause->ATOM_LIST.len && !CONTRA(clause->ATOM_LIST[k],NEGOF(literal)) ==> (exists j {result->ATOM_LIST[j]} :: 0 <= j && j < result->ATOM_LIST.len && result->ATOM_LIST[j] == clause->ATOM_LIST[k])
  ensures fromr@nc,wl: forall k {reason->ATOM_LIST[k]} :: 0 <= k && k < reason->ATOM_LIST.len && !CONTRA(reason->ATOM_LIST[k],literal) ==> (exists j {result->ATOM_LIST[j]} :: 0 <= j && j < result->ATOM_LIST.len && result->ATOM_LIST[j] == reason->ATOM_LIST[k])
  ensures top@nc,wl by two,at,rt1,rt2,rt3,nd,fromc,fromr,cid: PTOP(result)
fn Formula::potent(clause)
  requires mode@nc: !WATCH
  inv 0 none@nc: !flag ==> (forall k {clause->ATOM_LIST[k]} :: 0 <= k && k < i ==> LVL(clause->ATOM_LIST[k]) != LEVEL)
  inv 0 one@nc: flag ==> 0 <= index && index < i && LVL(clause->ATOM_LIST[index]) == LEVEL && (forall k {clause->ATOM_LIST[k]} :: 0 <= k && k < i && k != index ==> LVL(clause->ATOM_LIST[k]) != LEVEL)
  ensures yes@nc: result ==> clause->ATOM_LIST.len == 1 || PTOP1(clause)
  ensures no@nc: !result && PTOP(clause) ==> PTOP2(clause)
fn Formula::maxLit(clause)
  requires some@nc: clause->ATOM_LIST.len >= 1
  inv 0 in@nc: 0 <= atom_index && atom_index < clause->ATOM_LIST.len
  ensures in@nc: 0 <= result && result < clause->ATOM_LIST.len
fn Formula::backtrackLevel(learnedClause)
  requires lev@nc: LEVEL >= 1 && (forall k {learnedClause->ATOM_LIST[k]} :: 0 <= k && k < learnedClause->ATOM_LIST.len ==> LVL(learnedClause->ATOM_LIST[k]) >= 0)
  inv 0 max@nc: -1 <= max && max < LEVEL && (forall k {learnedClause->ATOM_LIST[k]} :: 0 <= k && k < i && LVL(learnedClause->ATOM_LIST[k]) < LEVEL ==> LVL(learnedClause->ATOM_LIST[k]) <= max)
  inv 0 some@nc: max != -1 ==> (exists k {learnedClause->ATOM_LIST[k]} :: 0 <= k && k < i && LVL(learnedClause->ATOM_LIST[k]) == max)
  ensures max@nc: 0 <= result && result < LEVEL && (forall k {learnedClause->ATOM_LIST[k]} :: 0 <= k && k < learnedClause->ATOM_LIST.len && LVL(learnedClause->ATOM_LIST[k]) < LEVEL ==> LVL(learnedClause->ATOM_LIST[k]) <= result)
  ensures some@nc: result >= 1 ==> (exists k {learnedClause->ATOM_LIST[k]} :: 0 <= k && k < learnedClause->ATOM_LIST.len && LVL(learnedClause->ATOM_LIST[k]) == result)
group LCFRAME
  list: NC == old(NC) + 1
  first: forall c {CLAUSELIST[c]} :: 0 <= c && c < old(NC) ==> CLAUSELIST[c] == old(CLAUSELIST[c]) && CLAUSELIST[c]->ATOM_LIST.len == old(SZ(c)) && AL(c) == old(AL(c)) && NUM(c) == old(NUM(c)) && CLV(c) == old(CLV(c))
  made: NUM(NC-1) == 0 && CLV(NC-1) == -1
define SCORES := forall v, d {VARLIST[v]->VSIDS_SCORE[d]} :: 0 <= v && v < NV && 0 <= d && d < DOM(v) ==> VARLIST[v]->VSIDS_SCORE[d] >= 0
fn Formula::learnClause(clause)
  requires score@nc,wl: SCORES
  inv 0 score@nc,wl: SCORES
  inv 1 score@nc,wl: SCORES
  inv 2 score@nc,wl: SCORES
  inv 3 score@nc,wl: SCORES
  inv 4 score@nc,wl: SCORES
  inv 5 score@nc,wl: SCORES
  ensures score@nc,wl: SCORES
  requires mode@nc: !WATCH
  requires *WF @nc
  requires *CSTATE @nc
  requires *CLS @nc
  requires nd@nc,wl: PND(clause)
  requires false@nc,wl: PFALSE(clause)
  requires fresh@nc: NOTIN(clause) && clause->LEVEL == -1
  inv 0 recp@nc: forall v, d, c {NOC(VARLIST[v]->ATOMRECPOS[d].el, VARLIST[v]->ATOMRECPOS[d].len, c)} :: CELL(v,d) && 0 <= c && c < NC - 1 ==>
    NOC(VARLIST[v]->ATOMRECPOS[d].el, VARLIST[v]->ATOMRECPOS[d].len, c) == NOCL(AL(c),SZ(c),lit(v,d,true))
  inv 0 recn@nc: forall v, d, c {NOC(VARLIST[v]->ATOMRECNEG[d].el, VARLIST[v]->ATOMRECNEG[d].len, c)} :: CELL(v,d) && 0 <= c && c < NC - 1 ==>
    NOC(VARLIST[v]->ATOMRECNEG[d].el, VARLIST[v]->ATOMRECNEG[d].len, c) == NOCL(AL(c),SZ(c),lit(v,d,false))
  inv 0 newp@nc by newp,nocpush,nocl1,false,wfv,mode: forall v, d {VARLIST[v]->ATOMRECPOS[d].len} :: CELL(v,d) ==> NOC(VARLIST[v]->ATOMRECPOS[d].el, VARLIST[v]->ATOMRECPOS[d].len, NC - 1) == NOCL(AL(NC-1),i,lit(v,d,true))
  inv 0 newn@nc by newn,nocpush,nocl1,false,wfv,mode: forall v, d {VARLIST[v]->ATOMRECNEG[d].len} :: CELL(v,d) ==> NOC(VARLIST[v]->ATOMRECNEG[d].el, VARLIST[v]->ATOMRECNEG[d].len, NC - 1) == NOCL(AL(NC-1),i,lit(v,d,false))
  inv 0 recr@nc: forall v, d, k {VARLIST[v]->ATOMRECPOS[d].el[k]} {VARLIST[v]->ATOMRECNEG[d].el[k]} :: CELL(v,d) ==>
    (0 <= k < VARLIST[v]->ATOMRECPOS[d].len ==> INRANGE(VARLIST[v]->ATOMRECPOS[d].el[k])) && (0 <= k < VARLIST[v]->ATOMRECNEG[d].len ==> INRANGE(VARLIST[v]->ATOMRECNEG[d].el[k]))
  ensures *LCFRAME @nc
  ensures *WF @nc
  ensures *CSTATE @nc
  ensures *CLS @nc
  ensures same@nc,wl: result == clause && CLAUSELIST[NC-1] == clause
  ensures nd@nc,wl: PND(clause)
  ensures false@nc,wl: PFALSE(clause)
  ensures kept2@nc,wl: forall p:Clause {p->LEVEL} {p->NumUnAss} {p->ATOM_LIST.el} {p->ATOM_LIST.len} :: p->LEVEL == old(p->LEVEL) && KEPT(p) && (p != clause ==> p->NumUnAss == old(p->NumUnAss))
fn Formula::analyzeConflict(clause, free)
  requires score@nc,wl: SCORES
  ensures score@nc,wl: SCORES
  requires mode@nc: !WATCH
  requires lev@nc,wl: LEVEL >= 1 && (forall v, d {A(v,d)} {LV(v,d)} :: CELL(v,d) ==> LV(v,d) <= LEVEL)
  requires *WF @nc
  requires *CSTATE @nc
  requires *CLS @nc
  requires *PC @nc
  requires *RSN @nc
  requires nd@nc,wl: PND(clause)
  requires false@nc,wl: PFALSE(clause)
  requires lvl@nc: clause->LEVEL == -1
  requires top@nc by top,kept,kept2: PTOP(clause)
  requires fresh@nc: NOTIN(clause) || (clause->ATOM_LIST.len >= 2 && PTOP2(clause))
  inv 0 kept2@nc,wl: forall p:Clause {p->LEVEL} {p->NumUnAss} {alloc(p)} :: old(alloc(p)) ==> KEPT2(p)
  ensures *LCFRAME @nc
  ensures *WF @nc
  ensures *CSTATE @nc
  ensures *CLS @nc
  ensures same@nc,wl: CLAUSELIST[NC-1] == result
  ensures nd@nc,wl: PND(result)
  ensures false@nc,wl: PFALSE(result)
  ensures top@nc: PTOP1(result)
define GROWN := NC >= old(NC) && (forall c {CLAUSELIST[c]} {old(CLAUSELIST.el)[c]} :: 0 <= c && c < old(NC) ==> CLAUSELIST[c] == old(CLAUSELIST[c]) && SZ(c) == old(SZ(c)) && AL(c) == old(AL(c)))
group NCINV
  mode: !WATCH
  heur: heuristic == VSIDS || heuristic == VSIDS_pos || heuristic == BK || heuristic == lazy
  score: SCORES
  agr0@agr: AGR(0)
  *WF
  *CSTATE
  *LSTATE
  *RSN
  *CLS
  *PC
fn Formula::NonChronoBacktrack(restarts)
  requires *NCINV @nc
  inv 0 *NCINV @nc
  inv 0 grow@nc: GROWN
  cut unitPropagation struct@c07: STRUCT
  cut unitPropagation search@c07s: SEARCH
  cut unitPropagation grow@nc: GROWN
  cut unitPropagation *NCINV -pend -pc -nofalse @nc
  cut unitPropagation nofalse@nc by asg,cell,cnt,cntin,conf,false,first,lev,list,made,max,nofalse,pc,same,sat,satm,satw,top,uni,wfa: forall c {CLAUSELIST[c]} :: INRANGE(c) && CLV(c) == -1 && NUM(c) == 0 ==> CONFLICT
  cut unitPropagation pend@nc by asg,cell,cnt,cntin2,first,lev,list,lvl,max,pc,pend,sat,satm,satw,wfa,top,some,made,same,false: forall c {CLAUSELIST[c]} :: INRANGE(c) && CLV(c) == -1 && NUM(c) == 1 ==> INU(c)
  cut unitPropagation pc@nc by asg,cell,first,lev,list,made,same,max,some,top,pc,sat,false,satw,wfa: PCALL
  cut chooseLiteral struct@c07: STRUCT
  cut chooseLiteral search@c07s: SEARCH
  cut chooseLiteral grow@nc: GROWN
  cut chooseLiteral *NCINV -pc @nc
  cut chooseLiteral pc@nc by asg,clv,keep,lev,newl,pc,satm,satw,wfa,clev: PCALL
  cut chooseLiteral ready@nc: !CONFLICT ==> (forall c {CLAUSELIST[c]} :: INRANGE(c) && CLV(c) == -1 ==> NUM(c) >= 2)
  ensures unsat@agr: result != 2
  ensures sat@sat: result == 0 ==> (forall c {CLAUSELIST[c]} :: INRANGE(c) ==> (exists k {AT(c,k)} :: 0 <= k && k < SZ(c) && istrue(AT(c,k))))
  ensures grow@nc: GROWN
