# The watched-literal search.  Ghost state: the literal whose list holds a record (own; variable < 1 when in
# none), its rank in that list (pos, falling along next), and the record by which a clause watches a literal (wrec).
ghost own: larr
ghost pos: iarr
ghost wrec: (Array Int (Array Literal Int))
define INL(r) := own[r].VAR >= 1
define HP(v,d) := VARLIST[v]->ATOMWATCHPOS[d]
define HN(v,d) := VARLIST[v]->ATOMWATCHNEG[d]
define HD(l) := l.EQUAL ? VARLIST[l.VAR]->ATOMWATCHPOS[l.VAL] : VARLIST[l.VAR]->ATOMWATCHNEG[l.VAL]
group LIST
  hp: forall v, d {VARLIST[v]->ATOMWATCHPOS[d]} :: CELL(v,d) && HP(v,d) != null ==> own[HP(v,d)] == lit(v,d,true) && HP(v,d)->prev == null
  hn: forall v, d {VARLIST[v]->ATOMWATCHNEG[d]} :: CELL(v,d) && HN(v,d) != null ==> own[HN(v,d)] == lit(v,d,false) && HN(v,d)->prev == null
  lin: forall r:VARRECORD {own[r]} :: INL(r) ==> CELL(own[r].VAR,own[r].VAL) && r != null && alloc(r)
  lhd: forall r:VARRECORD {own[r]} :: INL(r) ==> HD(own[r]) != null && pos[r] <= pos[HD(own[r])]
  lnx: forall r:VARRECORD {r->next} :: INL(r) && r->next != null ==> own[r->next] == own[r] && pos[r->next] < pos[r] && r->next->prev == r
  lpv: forall r:VARRECORD {r->prev} :: INL(r) && r->prev != null ==> own[r->prev] == own[r] && r->prev->next == r
  lpn: forall r:VARRECORD {r->prev} :: INL(r) && r->prev == null ==> HD(own[r]) == r
  gap: forall r:VARRECORD, s:VARRECORD {own[r], s->next} :: INL(r) && own[r] == own[s] && pos[r] < pos[s] ==> s->next != null && pos[s->next] >= pos[r]
  dist: forall r:VARRECORD, s:VARRECORD {own[r],own[s]} :: INL(r) && own[r] == own[s] && r != s ==> pos[r] != pos[s]
define WFV := NV >= 1 && DOM(0) == 0 && (forall v {VARLIST[v]} :: 0 <= v < NV ==> VARLIST[v]->VAR == v)
define HDT(d,e) := e ? this->ATOMWATCHPOS[d] : this->ATOMWATCHNEG[d]
fn Variable::addRecord(c_id, d_id, flag)
  opt contract
  requires wfv@wl: WFV
  requires *LIST @wl
  requires cell@wl: CELL(this->VAR,d_id) && VARLIST[this->VAR] == this
  set own@wl: store(own, HDT(d_id,flag), lit(this->VAR,d_id,flag))
  set pos@wl: store(pos, HDT(d_id,flag), old(HDT(d_id,flag)) == null ? 0 : pos[old(HDT(d_id,flag))] + 1)
  set wrec@wl: store(wrec, c_id, store(wrec[c_id], lit(this->VAR,d_id,flag), HDT(d_id,flag)))
  ensures new@wl: let r := HDT(d_id,flag); r != null && !old(alloc(r)) && alloc(r) && r->c_num == c_id
  ensures own@wl: own == store(old(own), HDT(d_id,flag), lit(this->VAR,d_id,flag))
  ensures wrec@wl: wrec == store(old(wrec), c_id, store(old(wrec)[c_id], lit(this->VAR,d_id,flag), HDT(d_id,flag)))
  ensures pos@wl: forall r:VARRECORD {pos[r]} :: r != HDT(d_id,flag) ==> pos[r] == old(pos)[r]
  ensures cnum@wl: forall r:VARRECORD {r->c_num} :: r != HDT(d_id,flag) ==> r->c_num == old(r->c_num)
  ensures *LIST @wl
fn Variable::removeRecord(record, d_id, flag)
  opt contract
  requires wfv@wl: WFV
  requires *LIST @wl
  requires cell@wl: INL(record) && own[record] == lit(this->VAR,d_id,flag) && VARLIST[this->VAR] == this
  set own@wl: store(own, record, lit(0-1,0-1,false))
  ensures own@wl: own == store(old(own), record, lit(0-1,0-1,false))
  ensures *LIST @wl
# Watches: every clause with literals watches W0, with more than one literal also W1; records and watches correspond.
define W0(c) := CLAUSELIST[c]->WATCHED[0]
define W1(c) := CLAUSELIST[c]->WATCHED[1]
define RECOF(c,l) := ref(VARRECORD, wrec[c][l])
define RESTF(c) := forall k {AT(c,k)} :: 0 <= k && k < SZ(c) ==> isfalse(AT(c,k)) || AT(c,k) == W0(c) || (SZ(c) >= 2 && AT(c,k) == W1(c))
define ALLF(c) := forall k {AT(c,k)} :: 0 <= k && k < SZ(c) ==> isfalse(AT(c,k))
define WATOK(c) := INRANGE(c) && SZ(c) >= 1
group WAT
  wfv: WFV
  wfc: forall c, b {CLAUSELIST[c],CLAUSELIST[b]} :: INRANGE(c) && INRANGE(b) && c != b ==> CLAUSELIST[c] != CLAUSELIST[b]
  wfa: forall c, k {AT(c,k)} :: INRANGE(c) && 0 <= k && k < SZ(c) ==> litok(AT(c,k))
  wat0: forall c {CLAUSELIST[c]} :: INRANGE(c) && SZ(c) >= 1 ==> litok(W0(c)) && (exists k {AT(c,k)} :: 0 <= k && k < SZ(c) && AT(c,k) == W0(c))
  wat1: forall c {CLAUSELIST[c]} :: INRANGE(c) && SZ(c) >= 2 ==> litok(W1(c)) && W0(c) != W1(c) && (exists k {AT(c,k)} :: 0 <= k && k < SZ(c) && AT(c,k) == W1(c))
  wr0: forall c {CLAUSELIST[c]} :: INRANGE(c) && SZ(c) >= 1 ==> own[RECOF(c,W0(c))] == W0(c) && RECOF(c,W0(c))->c_num == c
  wr1: forall c {CLAUSELIST[c]} :: INRANGE(c) && SZ(c) >= 2 ==> own[RECOF(c,W1(c))] == W1(c) && RECOF(c,W1(c))->c_num == c
  rw: forall r:VARRECORD {own[r]} :: INL(r) ==> INRANGE(r->c_num) && SZ(r->c_num) >= 1 && (own[r] == W0(r->c_num) || (SZ(r->c_num) >= 2 && own[r] == W1(r->c_num))) && RECOF(r->c_num,own[r]) == r
  *LIST
fn Formula::SwapPointer(current)
  opt contract
  requires *WAT @wl
  requires asg@wl: forall v, d {A(v,d)} :: CELL(v,d) ==> A(v,d) == 0 || A(v,d) == 1 || A(v,d) == -1
  requires cur@wl: INL(current) && own[current] == W0(current->c_num) && isfalse(own[current])
  requires w1@wl: SZ(current->c_num) >= 2 ==> !istrue(W1(current->c_num)) && (isfalse(W1(current->c_num)) ==> RESTF(current->c_num))
  requires quiet@wl: !CONFLICT && UNITLIST.lo <= UNITLIST.hi
  inv 0 none@wl: forall k {AT(clause_num,k)} :: 0 <= k && k < i ==> isfalse(AT(clause_num,k)) || AT(clause_num,k) == W1(clause_num)
  ensures *WAT @wl
  ensures others@wl: forall c {CLAUSELIST[c]} :: INRANGE(c) && c != old(current->c_num) ==> W0(c) == old(W0(c)) && W1(c) == old(W1(c))
  ensures w1@wl: W1(old(current->c_num)) == old(W1(current->c_num))
  ensures keep@wl: forall r:VARRECORD {own[r]} {old(own)[r]} {pos[r]} :: old(INL(r)) && r != current ==> own[r] == old(own)[r] && pos[r] == old(pos)[r] && r->c_num == old(r->c_num)
  ensures rec@wl: forall c {CLAUSELIST[c]} {wrec[c]} :: INRANGE(c) && c != old(current->c_num) ==> wrec[c] == old(wrec)[c]
  ensures case1@wl: let c := old(current->c_num); CONFLICT ==> CONFLICTINGCLAUSE == c && W0(c) == old(own)[current] && own[current] == old(own)[current]
  ensures case1f@wl by cur,w1,wat0,wat1,asg,quiet,none: let c := old(current->c_num); CONFLICT ==> ALLF(c)
  ensures case2@wl: let c := old(current->c_num); !CONFLICT ==> isopen(W1(c)) && SZ(c) >= 2
  ensures case3@wl: let c := old(current->c_num); !CONFLICT && isfalse(W0(c)) ==> W0(c) == old(own)[current] && own[current] == old(own)[current] && UNITLIST.lo == old(UNITLIST.lo) - 1 && UNITLIST.el == store(old(UNITLIST.el), UNITLIST.lo, c)
  ensures case3f@wl: let c := old(current->c_num); !CONFLICT && isfalse(W0(c)) ==> RESTF(c)
  ensures case4@wl: let c := old(current->c_num); CONFLICT || !isfalse(W0(c)) ==> UNITLIST.lo == old(UNITLIST.lo) && UNITLIST.el == old(UNITLIST.el)
  ensures hi@wl: UNITLIST.hi == old(UNITLIST.hi)
# State between operations: a false watch is excused by a true partner of no higher level, or falls at the present
# level and the clause is queued (partner open), in conflict, or still to be visited (d0, d1).
define ST0(c,d0,d1) := isfalse(W0(c)) ==> (istrue(W1(c)) && LVL(W1(c)) <= LVL(W0(c))) || (LVL(W0(c)) == LEVEL && (CONFLICT || d0 || (INU(c) && (isopen(W1(c)) || d1))))
define ST1(c,d0,d1) := isfalse(W1(c)) ==> (istrue(W0(c)) && LVL(W0(c)) <= LVL(W1(c))) || (LVL(W1(c)) == LEVEL && (CONFLICT || d1 || (INU(c) && (isopen(W0(c)) || d0))))
define STU(c,d0) := (istrue(W0(c)) && LVL(W0(c)) == 0) || (LEVEL == 0 && (CONFLICT || d0 || (INU(c) && isopen(W0(c)))))
group WST
  st0: forall c {CLAUSELIST[c]} :: INRANGE(c) && SZ(c) >= 2 ==> ST0(c,false,false)
  st1: forall c {CLAUSELIST[c]} :: INRANGE(c) && SZ(c) >= 2 ==> ST1(c,false,false)
  stu: forall c {CLAUSELIST[c]} :: INRANGE(c) && SZ(c) == 1 ==> STU(c,false)
group WLS
  stz: forall c {CLAUSELIST[c]} :: INRANGE(c) && SZ(c) < 1 ==> CONFLICT && LEVEL == 0
  ulist: UNITLIST.lo <= UNITLIST.hi
  uni: forall p {UNITLIST.el[p]} :: UNITLIST.lo <= p && p < UNITLIST.hi ==> INRANGE(UNITLIST.el[p]) && (SZ(UNITLIST.el[p]) >= 2 ==> isfalse(W0(UNITLIST.el[p])) || isfalse(W1(UNITLIST.el[p])))
  unf by asg,case1,case2,case3,case3f,case4,cur,lit,mem,others,rw,stz,unf,uni,w1,wat0,wat1,wfa,wfc,wr0,wr1,cell,false,mode,nodup,pmax,pw,same,search,first,list,lev,set,det,keep,newl,ulist,hi,quiet,conf: forall p {UNITLIST.el[p]} :: UNITLIST.lo <= p && p < UNITLIST.hi ==> RESTF(UNITLIST.el[p])
  conf: CONFLICT ==> INRANGE(CONFLICTINGCLAUSE) && (LEVEL >= 1 ==> SZ(CONFLICTINGCLAUSE) >= 2 && LVL(W0(CONFLICTINGCLAUSE)) == LEVEL && LVL(W1(CONFLICTINGCLAUSE)) == LEVEL)
  conff: CONFLICT ==> ALLF(CONFLICTINGCLAUSE)
define DUR(c,w,l,cur) := w == l && cur != null && pos[RECOF(c,l)] <= pos[cur]
fn Formula::watchedFalsifyLiteral(lit)
  opt contract
  requires *WAT @wl
  requires *WLS @wl
  requires asg@wl: forall v, d {A(v,d)} :: CELL(v,d) ==> A(v,d) == 0 || A(v,d) == 1 || A(v,d) == -1
  requires lev@wl: LEVEL >= 0 && (forall v, d {LV(v,d)} :: CELL(v,d) ==> LV(v,d) <= LEVEL)
  requires lit@wl: litok(lit) && isfalse(lit) && LVL(lit) == LEVEL
  requires st0@wl: forall c {CLAUSELIST[c]} :: INRANGE(c) && SZ(c) >= 2 ==> ST0(c,W0(c) == lit,W1(c) == lit)
  requires st1@wl: forall c {CLAUSELIST[c]} :: INRANGE(c) && SZ(c) >= 2 ==> ST1(c,W0(c) == lit,W1(c) == lit)
  requires stu@wl: forall c {CLAUSELIST[c]} :: INRANGE(c) && SZ(c) == 1 ==> STU(c,W0(c) == lit)
  inv 0 *WAT @wl
  inv 0 *WLS @wl
  inv 0 cur@wl: current != null ==> INL(current) && own[current] == lit
  inv 0 st0@wl by wfc,wat0,asg,st0,st1,stu,case1,case2,case3,case4,others,w1,keep,rec,cur,dist,gap,rw,wr0,wr1,wat1,lnx,lit,lev,quiet,hi,ulist,pre: forall c {CLAUSELIST[c]} :: INRANGE(c) && SZ(c) >= 2 ==> ST0(c,DUR(c,W0(c),lit,current),DUR(c,W1(c),lit,current))
  inv 0 st1@wl by wfc,wat0,asg,st0,st1,stu,case1,case2,case3,case4,others,w1,keep,rec,cur,dist,gap,rw,wr0,wr1,wat1,lnx,lit,lev,quiet,hi,ulist,pre: forall c {CLAUSELIST[c]} :: INRANGE(c) && SZ(c) >= 2 ==> ST1(c,DUR(c,W0(c),lit,current),DUR(c,W1(c),lit,current))
  inv 0 stu@wl by wfc,wat0,asg,st0,st1,stu,case1,case2,case3,case4,others,w1,keep,rec,cur,dist,gap,rw,wr0,wr1,wat1,lnx,lit,lev,quiet,hi,ulist,pre: forall c {CLAUSELIST[c]} :: INRANGE(c) && SZ(c) == 1 ==> STU(c,DUR(c,W0(c),lit,current))
  inv 0 det@wl: entry(CONFLICT) ==> CONFLICT
  ensures *WAT @wl
  ensures *WLS @wl
  ensures *WST @wl
  ensures det@wl: old(CONFLICT) ==> CONFLICT
define WVALL := forall v, d {A(v,d)} {LV(v,d)} :: CELL(v,d) && VALOF(v) != -1 && A(v,d) == 0 ==> CONFLICT && LV(v,VALOF(v)) == LEVEL
define WLEV := LEVEL >= 0 && (forall v, d {A(v,d)} {LV(v,d)} :: CELL(v,d) ==> LV(v,d) <= LEVEL)
# Reasons, as in nc.spec; rtop replaces the clause levels of the counter engine; idx places each cell on the trail.
group WRSN
  cidr: forall v, d {CID(v,d)} {A(v,d)} :: CELL(v,d) && A(v,d) != 0 ==> CID(v,d) >= 0 - 2 && CID(v,d) < NC
  rat by rat,cidr,asg,cell,uc,uc0,keep,set,vals,det,wfa,lev,wfv,mem: forall v, d, k {RAT(v,d,k)} :: CELL(v,d) && A(v,d) != 0 && CID(v,d) >= 0 && 0 <= k && k < RSZ(v,d) ==> CONTRA(RAT(v,d,k),FAL(v,d)) || (isfalse(RAT(v,d,k)) && LVL(RAT(v,d,k)) <= LV(v,d))
  rtop by asg,cell,cidr,det,idx,lev,rtop,set,stz,val,valm,wfa,wfv,wr0,mode,first,vals,valx,uct,uc,keep,mem: forall v, d {CID(v,d)} :: CELL(v,d) && A(v,d) == 1 && CID(v,d) >= 0 && LV(v,d) >= 1 ==> (exists k {RAT(v,d,k)} :: 0 <= k && k < RSZ(v,d) && RAT(v,d,k) != lit(v,d,true) && LVL(RAT(v,d,k)) == LV(v,d))
  renta: forall v, d {CID(v,d)} :: CELL(v,d) && A(v,d) != 0 && CID(v,d) == 0 - 2 ==> A(v,d) == 1
  rentb: forall v, d, e {CID(v,d),A(v,e)} :: CELL(v,d) && CELL(v,e) && e != d && A(v,d) != 0 && CID(v,d) == 0 - 2 ==> A(v,e) == -1
  rentc: forall v, d {CID(v,d)} :: CELL(v,d) && A(v,d) != 0 && CID(v,d) == 0 - 2 ==> (exists e {LV(v,e)} :: CELL(v,e) && e != d && LV(v,e) == LV(v,d))
  rdec: forall v, d {CID(v,d)} :: CELL(v,d) && A(v,d) != 0 && CID(v,d) == -1 ==> DECOF(v,d).VAR == v && LV(v,DECOF(v,d).VAL) == LV(v,d) && (DECOF(v,d).VAL == d || (A(v,DECOF(v,d).VAL) == 1 && A(v,d) == -1))
  idx: forall v, d {IDX(v,d)} {A(v,d)} :: CELL(v,d) && A(v,d) != 0 ==> 0 <= IDX(v,d) && IDX(v,d) < DECSTACK.len && LVL(DECOF(v,d)) == LV(v,d)
group WRFRAME
  keep: forall v, d {A(v,d)} {LV(v,d)} {CID(v,d)} {IDX(v,d)} {old(LV(v,d))} :: CELL(v,d) && old(A(v,d)) != 0 ==> KEEP(v,d)
  newl: forall v, d {A(v,d)} {LV(v,d)} :: CELL(v,d) && old(A(v,d)) == 0 && A(v,d) != 0 ==> LV(v,d) == LEVEL && v == lit.VAR
  det: old(CONFLICT) ==> CONFLICT
  set: istrue(lit) && LVL(lit) == LEVEL
fn Formula::watchedReduceTheory(lit)
  opt contract
  requires *WAT @wl
  requires *WSTATE -wfv @wl
  requires *WLS @wl
  requires lev@wl: WLEV
  requires vall@wl: WVALL
  requires st0@wl: forall c {CLAUSELIST[c]} :: INRANGE(c) && SZ(c) >= 2 ==> ST0(c,W1(c) == lit,false)
  requires st1@wl: forall c {CLAUSELIST[c]} :: INRANGE(c) && SZ(c) >= 2 ==> ST1(c,false,W0(c) == lit)
  requires stu@wl: forall c {CLAUSELIST[c]} :: INRANGE(c) && SZ(c) == 1 ==> STU(c,W0(c) == lit)
  requires cell@wl: litok(lit) && isopen(lit) && VALOF(lit.VAR) == -1
  requires *WRSN @wl
  requires uc@wl: UNITCLAUSE >= 0 - 2 && UNITCLAUSE < NC
  requires uc0@wl: UNITCLAUSE >= 0 ==> (forall k {AT(UNITCLAUSE,k)} :: 0 <= k && k < SZ(UNITCLAUSE) ==> AT(UNITCLAUSE,k) == lit || isfalse(AT(UNITCLAUSE,k)))
  requires uct@wl: UNITCLAUSE >= 0 && LEVEL >= 1 ==> (exists k {AT(UNITCLAUSE,k)} :: 0 <= k && k < SZ(UNITCLAUSE) && AT(UNITCLAUSE,k) != lit && LVL(AT(UNITCLAUSE,k)) == LEVEL)
  requires uc2@wl: UNITCLAUSE == 0 - 2 ==> lit.EQUAL && (forall e {A(lit.VAR,e)} :: CELL(lit.VAR,e) && e != lit.VAL ==> A(lit.VAR,e) == -1) && (exists e {LV(lit.VAR,e)} :: CELL(lit.VAR,e) && e != lit.VAL && LV(lit.VAR,e) == LEVEL)
  requires uin@agr by uin: UNITCLAUSE >= 0 ==> (exists k {AT(UNITCLAUSE,k)} :: 0 <= k && k < SZ(UNITCLAUSE) && AT(UNITCLAUSE,k) == lit)
  requires mv@agr by mv: MDOM
  inv 0 *WAT @wl
  inv 0 *WSTATE -wfv @wl
  inv 0 *WLS @wl
  inv 0 *WST @wl
  inv 0 lev@wl: WLEV
  inv 0 *WRSN @wl
  inv 0 *WRFRAME @wl
  inv 0 agr@agr: old(AGR(LEVEL)) && MTRUE(lit) ==> AGR(LEVEL)
  inv 0 agr0@agr: old(AGR(0)) && (LEVEL == 0 ==> MTRUE(lit)) ==> AGR(0)
  inv 0 vals@wl: VALOF(lit.VAR) == lit.VAL && (forall v {VALOF(v)} :: 1 <= v && v < NV && v != lit.VAR ==> VALOF(v) == old(VALOF(v)))
  inv 0 done@wl: !CONFLICT ==> (forall d {A(lit.VAR,d)} {LV(lit.VAR,d)} :: 0 <= d && d < i ==> A(lit.VAR,d) != 0)
  inv 1 *WAT @wl
  inv 1 *WSTATE -wfv @wl
  inv 1 *WLS @wl
  inv 1 *WST @wl
  inv 1 lev@wl: WLEV
  inv 1 *WRSN @wl
  inv 1 *WRFRAME @wl
  inv 1 agr@agr: old(AGR(LEVEL)) && MTRUE(lit) ==> AGR(LEVEL)
  inv 1 agr0@agr: old(AGR(0)) && (LEVEL == 0 ==> MTRUE(lit)) ==> AGR(0)
  inv 1 vals@wl: VALOF(lit.VAR) == lit.VAL && (forall v {VALOF(v)} :: 1 <= v && v < NV && v != lit.VAR ==> VALOF(v) == old(VALOF(v)))
  inv 1 done@wl: !CONFLICT ==> (forall d {A(lit.VAR,d)} {LV(lit.VAR,d)} :: 0 <= d && d < i ==> A(lit.VAR,d) != 0)
  ensures *WAT @wl
  ensures *WSTATE -wfv @wl
  ensures *WLS @wl
  ensures *WST @wl
  ensures lev@wl: WLEV
  ensures vall@wl: WVALL
  ensures *WRSN @wl
  ensures *WRFRAME @wl by asg,cell,keep,lev,newl,only,set,uc2,vall,valm,wfv,det,vals,mem
  ensures agr@agr: old(AGR(LEVEL)) && MTRUE(lit) ==> AGR(LEVEL)
  ensures agr0@agr: old(AGR(0)) && (LEVEL == 0 ==> MTRUE(lit)) ==> AGR(0)
  ensures vals@wl: forall v {VALOF(v)} :: 1 <= v && v < NV && v != lit.VAR ==> VALOF(v) == old(VALOF(v))
group WPFRAME
  keep: forall v, d {A(v,d)} {LV(v,d)} {CID(v,d)} {IDX(v,d)} {old(LV(v,d))} :: CELL(v,d) && old(A(v,d)) != 0 ==> KEEP(v,d)
  newl: forall v, d {A(v,d)} {LV(v,d)} :: CELL(v,d) && old(A(v,d)) == 0 && A(v,d) != 0 ==> LV(v,d) == LEVEL
group WCORE
  *WAT
  *WSTATE -wfv
  *WLS
  *WST
  lev: WLEV
  vall: WVALL
  *WRSN
fn Formula::WatchedUnitPropagation()
  requires *WCORE @wl
  requires mv@agr by mv: MDOM && ALLSAT
  inv 0 *WCORE @wl
  inv 0 *WPFRAME @wl
  inv 0 agr@agr: old(AGR(LEVEL)) ==> AGR(LEVEL)
  inv 0 agr0@agr: old(AGR(0)) ==> AGR(0)
  ensures *WCORE @wl
  ensures *WPFRAME @wl
  ensures agr@agr: old(AGR(LEVEL)) ==> AGR(LEVEL)
  ensures agr0@agr: old(AGR(0)) ==> AGR(0)
  ensures done@wl: CONFLICT || UNITLIST.lo == UNITLIST.hi
# Conflict analysis: the watches of the clause at hand are its two latest falsified literals.
define PIN(p,l) := exists k {p->ATOM_LIST[k]} :: 0 <= k && k < p->ATOM_LIST.len && p->ATOM_LIST[k] == l
define PW(p) := p->ATOM_LIST.len >= 1 && PIN(p,p->WATCHED[0]) && (p->ATOM_LIST.len >= 2 ==> PIN(p,p->WATCHED[1]) && p->WATCHED[0] != p->WATCHED[1])
define PMAX(p) := forall k {p->ATOM_LIST[k]} :: 0 <= k && k < p->ATOM_LIST.len && p->ATOM_LIST[k] != p->WATCHED[0] ==> LVL(p->ATOM_LIST[k]) <= LVL(p->WATCHED[1])
define IDL(l) := VARLIST[l.VAR]->ATOMINDEX[l.VAL]
define KEPTW(p) := p->WATCHED[0] == old(p->WATCHED[0]) && p->WATCHED[1] == old(p->WATCHED[1])
fn Formula::resolve(clause, literal, reason)
  inv 0 keptw@wl: forall p:Clause {p->WATCHED[0]} {p->WATCHED[1]} :: old(alloc(p)) ==> KEPTW(p)
  inv 1 keptw@wl: forall p:Clause {p->WATCHED[0]} {p->WATCHED[1]} :: old(alloc(p)) ==> KEPTW(p)
  ensures keptw@wl: forall p:Clause {p->WATCHED[0]} {p->WATCHED[1]} :: old(alloc(p)) ==> KEPTW(p)
fn Formula::potent(clause)
  requires mode@wl: WATCH
  ensures pot@wl: result <==> clause->ATOM_LIST.len == 1 || LVL(clause->WATCHED[1]) < LEVEL
fn Formula::assignWatched(clause)
  requires nd@wl: PND(clause)
  requires idx@wl by idx,false,asg: forall k {clause->ATOM_LIST[k]} :: 0 <= k && k < clause->ATOM_LIST.len ==> IDL(clause->ATOM_LIST[k]) >= 0
  inv 0 none@wl: (i == 0 ==> max_decision_index == -1) && -1 <= second_max_decision_index && second_max_decision_index <= max_decision_index && (i < 2 ==> second_max_decision_index == -1)
  inv 0 one@wl: i >= 1 ==> (exists k {clause->ATOM_LIST[k]} :: 0 <= k && k < i && clause->ATOM_LIST[k] == w1) && max_decision_index == IDL(w1)
  inv 0 two@wl: i >= 2 ==> w1 != w2 && (exists k {clause->ATOM_LIST[k]} :: 0 <= k && k < i && clause->ATOM_LIST[k] == w2) && second_max_decision_index == IDL(w2)
  inv 0 rest@wl: forall k {clause->ATOM_LIST[k]} :: 0 <= k && k < i && clause->ATOM_LIST[k] != w1 ==> IDL(clause->ATOM_LIST[k]) <= second_max_decision_index
  ensures pw@wl: clause->ATOM_LIST.len >= 1 ==> PW(clause)
  ensures m1@wl: forall k {clause->ATOM_LIST[k]} :: 0 <= k && k < clause->ATOM_LIST.len ==> IDL(clause->ATOM_LIST[k]) <= IDL(clause->WATCHED[0])
  ensures m2@wl: forall k {clause->ATOM_LIST[k]} :: 0 <= k && k < clause->ATOM_LIST.len && clause->ATOM_LIST[k] != clause->WATCHED[0] ==> IDL(clause->ATOM_LIST[k]) <= IDL(clause->WATCHED[1])
  ensures keptw@wl: forall p:Clause {p->WATCHED[0]} {p->WATCHED[1]} :: p != clause ==> KEPTW(p)
fn Formula::learnClause(clause)
  requires mode@wl: WATCH
  requires *WAT @wl
  requires *CLS @wl
  requires pw@wl: PW(clause)
  requires fresh@wl: NOTIN(clause)
  ensures *WAT @wl
  ensures *CLS @wl
group WLC
  list: NC == old(NC) + 1
  first: forall c {CLAUSELIST[c]} :: 0 <= c && c < old(NC) ==> CLAUSELIST[c] == old(CLAUSELIST[c]) && SZ(c) == old(SZ(c)) && AL(c) == old(AL(c)) && W0(c) == old(W0(c)) && W1(c) == old(W1(c))
fn Formula::analyzeConflict(clause, free)
  requires mode@wl: WATCH
  requires *WAT @wl by wfv,wfc,wfa,wat0,wat1,wr0,wr1,rw,live,kept,keptw,fresh,mode,made,mem
  requires *WSTATE -wfv @wl
  requires *WRSN @wl
  requires *CLS @wl
  requires pw@wl: PW(clause)
  requires top@wl: LVL(clause->WATCHED[0]) == LEVEL
  requires pmax@wl by pmax,pw,m1,m2,idx,mono,lev,asg,false,mem,mode,nd,dsok,wfv: PMAX(clause)
  requires fresh@wl: NOTIN(clause) || (clause->ATOM_LIST.len >= 2 && LVL(clause->WATCHED[1]) == LEVEL)
  inv 0 keptw@wl: forall p:Clause {p->WATCHED[0]} {p->WATCHED[1]} :: old(alloc(p)) ==> KEPTW(p)
  ensures *WLC @wl by list,first,live,kept,keptw,fresh,mode,made,mem
  ensures *WAT @wl
  ensures *CLS @wl
  ensures pw@wl: PW(result)
  ensures pmax@wl: PMAX(result)
  ensures top@wl: LVL(result->WATCHED[0]) == LEVEL && (result->ATOM_LIST.len >= 2 ==> LVL(result->WATCHED[1]) < LEVEL)
group WLINV
  mode: WATCH
  heur: heuristic == VSIDS || heuristic == VSIDS_pos || heuristic == lazy
  score: SCORES
  agr0@agr: AGR(0)
  *WCORE
  *CLS
fn Formula::WatchedLiterals(restarts)
  requires *WLINV @wl
  inv 0 *WLINV @wl
  inv 0 grow@wl: GROWN
  cut WatchedUnitPropagation struct@c07: STRUCT
  cut WatchedUnitPropagation search@c07s: SEARCH
  cut WatchedUnitPropagation grow@wl: GROWN
  cut WatchedUnitPropagation *WLINV @wl
  cut chooseLiteralVSIDS struct@c07: STRUCT
  cut chooseLiteralVSIDS search@c07s: SEARCH
  cut chooseLiteralVSIDS grow@wl: GROWN
  cut chooseLiteralVSIDS *WLINV @wl
  cut chooseLiteralVSIDS ready@wl: CONFLICT || UNITLIST.lo == UNITLIST.hi
  ensures unsat@agr by conf,conff,agr0,search,lev,wfa,asg,stz,mode,wfv: result != 2
  ensures sat@sat: result == 0 ==> (forall c {CLAUSELIST[c]} :: INRANGE(c) ==> (exists k {AT(c,k)} :: 0 <= k && k < SZ(c) && istrue(AT(c,k))))
  ensures grow@wl: GROWN
