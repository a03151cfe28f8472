# C20: every true cell is on the trail once; a variable without a value keeps two open values (CHOICE: for each
# value another one that is open, or that fell no earlier than the value of the variable was set).
group TRAIL
  tdist: forall p, q {DECSTACK[p],DECSTACK[q]} :: 0 <= p && p < q && q < DECSTACK.len ==> DECSTACK[p] != DECSTACK[q]
  tcov: forall v, d {A(v,d)} :: CELL(v,d) && A(v,d) == 1 ==> 0 <= IDX(v,d) && IDX(v,d) < DECSTACK.len && DECOF(v,d) == lit(v,d,true)
# PICK is true everywhere; it marks the witnesses.
function PICK(int,int): bool
axiom pick@tr,trp: forall v:int, d:int {PICK(v,d)} :: PICK(v,d)
define OPENV(v,d) := A(v,d) == 0 || (VALOF(v) != -1 && LV(v,d) >= LV(v,VALOF(v)))
define PAIR(v) := exists d, e {PICK(v,d),PICK(v,e)} :: PICK(v,d) && PICK(v,e) && CELL(v,d) && CELL(v,e) && d < e && OPENV(v,d) && OPENV(v,e)
group CHOICE
  two by two,left,vals,keep,newl,set,asg,val,valx,valm,lev,wfv,pick,tw,only,cell,mem,mode: forall v {VARLIST[v]} :: 1 <= v && v < NV && DOM(v) >= 2 ==> PAIR(v)
define LEFT(v,d,e) := DOM(v) >= 2 ==> (exists x {PICK(v,x)} :: PICK(v,x) && CELL(v,x) && x != d && (A(v,x) == 0 || (e && LV(v,x) == LEVEL)))
define CHOICEX(u) := forall v {VARLIST[v]} :: 1 <= v && v < NV && DOM(v) >= 2 && v != u ==> PAIR(v)
define SINGLE(v) := exists c {CLAUSELIST[c]} :: INRANGE(c) && SZ(c) == 1 && AT(c,0) == lit(v,0,true)
define DOMS := forall v {VARLIST[v]} :: 1 <= v && v < NV ==> DOM(v) >= 1 && (DOM(v) == 1 ==> SINGLE(v))
define ONEVAL := forall v {VARLIST[v]} {PICK(v,v)} :: 1 <= v && v < NV ==> (exists d {A(v,d)} :: CELL(v,d) && A(v,d) == 1)
fn Formula::checkEntail(var)
  ensures tw@tr: result == -1 ==> (forall x {A(var,x)} {PICK(var,x)} :: 0 <= x && x < DOM(var) && A(var,x) == 0 ==> (exists d, e {A(var,d),A(var,e)} :: PICK(var,d) && PICK(var,e) && 0 <= d && d < e && e < DOM(var) && A(var,d) == 0 && A(var,e) == 0))
fn Formula::reduceTheory(var, equals, val)
  requires *TRAIL @tr
  requires left@tr by two,left,vals,asg,val,cell,lev,wfv,pick,mem,mode,open,none,popped,set,keep,newl,only,vall: LEFT(var,val,equals)
  requires two@tr by two,vals,asg,val,lev,wfv,pick,mem,mode,set,keep,newl: CHOICEX(var)
  inv 0 *TRAIL @tr
  inv 0 *CHOICE @tr
  inv 1 *TRAIL @tr
  inv 1 *CHOICE @tr
  ensures *TRAIL @tr
  ensures *CHOICE @tr
fn Formula::watchedReduceTheory(lit)
  requires *TRAIL @tr
  requires left@tr by two,left,vals,asg,val,cell,lev,wfv,pick,mem,mode,open,none,popped,set,keep,newl,only,vall,unf,uni: LEFT(lit.VAR,lit.VAL,lit.EQUAL)
  requires two@tr by two,vals,asg,val,lev,wfv,pick,mem,mode,set,keep,newl: CHOICEX(lit.VAR)
  inv 0 *TRAIL @tr
  inv 0 *CHOICE @tr
  inv 1 *TRAIL @tr
  inv 1 *CHOICE @tr
  ensures *TRAIL @tr
  ensures *CHOICE @tr
fn Formula::undoTheory(level)
  requires *TRAIL @tr
  requires *CHOICE @tr
  ensures *TRAIL @tr
  ensures *CHOICE @tr
fn Formula::watchedUndoTheory(level)
  requires *TRAIL @tr
  requires *CHOICE @tr
  ensures *TRAIL @tr
  ensures *CHOICE @tr
fn Formula::unitPropagation()
  requires *TRAIL @tr
  requires *CHOICE @tr
  inv 0 *TRAIL @tr
  inv 0 *CHOICE @tr
  inv 1 *TRAIL @tr
  inv 1 *CHOICE @tr
  ensures *TRAIL @tr
  ensures *CHOICE @tr
fn Formula::WatchedUnitPropagation()
  requires *TRAIL @tr
  requires *CHOICE @tr
  inv 0 *TRAIL @tr
  inv 0 *CHOICE @tr
  ensures *TRAIL @tr
  ensures *CHOICE @tr
define PLACED := forall p {DECSTACK[p]} :: 0 <= p && p < DECSTACK.len ==> litok(DECSTACK[p]) && istrue(DECSTACK[p])
define ATMOST := forall v, d {A(v,d)} :: CELL(v,d) && A(v,d) == 1 ==> VALOF(v) == d
fn Formula::NonChronoBacktrack(restarts)
  requires *TRAIL @tr
  requires *CHOICE @tr
  requires doms@tr: DOMS
  inv 0 *TRAIL @tr
  inv 0 *CHOICE @tr
  cut unitPropagation *TRAIL @tr
  cut unitPropagation *CHOICE @tr
  cut chooseLiteral *TRAIL @tr
  cut chooseLiteral *CHOICE @tr
  ensures *TRAIL @tr,trp
  ensures placed@tr,trp: PLACED
  ensures atmost@tr,trp: ATMOST
  ensures full@tr,trp by full,doms,two,sat,all,asg,val,wfv,wfc,first,grow,wfa,heur: result == 0 && heuristic != lazy ==> ONEVAL
fn Formula::WatchedLiterals(restarts)
  requires *TRAIL @tr
  requires *CHOICE @tr
  requires doms@tr: DOMS
  inv 0 *TRAIL @tr
  inv 0 *CHOICE @tr
  cut WatchedUnitPropagation *TRAIL @tr
  cut WatchedUnitPropagation *CHOICE @tr
  cut chooseLiteralVSIDS *TRAIL @tr
  cut chooseLiteralVSIDS *CHOICE @tr
  ensures *TRAIL @tr,trp
  ensures placed@tr,trp: PLACED
  ensures atmost@tr,trp: ATMOST
  ensures full@tr,trp by full,doms,two,sat,all,asg,val,wfv,wfc,first,grow,wfa,heur: result == 0 && heuristic != lazy ==> ONEVAL
fn Formula::ChronoBacktrack(level)
  requires *TRAIL @tr
  requires *CHOICE @tr
  requires doms@tr: DOMS
  ensures *TRAIL @tr,trp
  ensures *CHOICE @tr
  ensures placed@tr,trp: PLACED
  ensures atmost@tr,trp: ATMOST
  ensures full@tr,trp: result == 0 && heuristic != lazy ==> ONEVAL
