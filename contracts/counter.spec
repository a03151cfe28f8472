# The counter engine: clause counters, satisfied levels, record lists and the trail.
define CL(c) := CLAUSELIST[c]
define AL(c) := CLAUSELIST[c]->ATOM_LIST.el
define CNTW(c,L,i,j) := CNTP(CLAUSELIST[c]->ATOM_LIST.el, SZ(c), VARLIST.el, @Variable.ATOMASSIGN.el, @Variable.ATOMLEVEL.el, L, i, j)
define CNT(c) := CNTW(c,0,0,0)
define NOCR(v,e,d,c) := e ? NOC(VARLIST[v]->ATOMRECPOS[d].el, VARLIST[v]->ATOMRECPOS[d].len, c) : NOC(VARLIST[v]->ATOMRECNEG[d].el, VARLIST[v]->ATOMRECNEG[d].len, c)
define NUM(c) := CLAUSELIST[c]->NumUnAss
define CLV(c) := CLAUSELIST[c]->LEVEL
define CELL(v,d) := 1 <= v && v < NV && 0 <= d && d < DOM(v)
define REC(v,e,d) := e ? VARLIST[v]->ATOMRECPOS[d] : VARLIST[v]->ATOMRECNEG[d]
define INRANGE(c) := 0 <= c && c < NC
define INU(c) := exists p {UNITLIST.el[p]} :: UNITLIST.lo <= p < UNITLIST.hi && UNITLIST.el[p] == c
group WF
  wfv: NV >= 1 && DOM(0) == 0 && (forall v {VARLIST[v]} :: 0 <= v < NV ==> VARLIST[v]->VAR == v)
  wfc: forall c, b {CLAUSELIST[c],CLAUSELIST[b]} :: INRANGE(c) && INRANGE(b) && c != b ==> CLAUSELIST[c] != CLAUSELIST[b]
  wfa: forall c, k {AT(c,k)} :: INRANGE(c) && 0 <= k < SZ(c) ==> litok(AT(c,k))
  recp: forall v, d, c {NOC(VARLIST[v]->ATOMRECPOS[d].el, VARLIST[v]->ATOMRECPOS[d].len, c)} :: CELL(v,d) && INRANGE(c) ==>
    NOC(VARLIST[v]->ATOMRECPOS[d].el, VARLIST[v]->ATOMRECPOS[d].len, c) == NOCL(AL(c),SZ(c),lit(v,d,true))
  recn: forall v, d, c {NOC(VARLIST[v]->ATOMRECNEG[d].el, VARLIST[v]->ATOMRECNEG[d].len, c)} :: CELL(v,d) && INRANGE(c) ==>
    NOC(VARLIST[v]->ATOMRECNEG[d].el, VARLIST[v]->ATOMRECNEG[d].len, c) == NOCL(AL(c),SZ(c),lit(v,d,false))
  recr: forall v, d, k {VARLIST[v]->ATOMRECPOS[d].el[k]} {VARLIST[v]->ATOMRECNEG[d].el[k]} :: CELL(v,d) ==>
    (0 <= k < VARLIST[v]->ATOMRECPOS[d].len ==> INRANGE(VARLIST[v]->ATOMRECPOS[d].el[k])) && (0 <= k < VARLIST[v]->ATOMRECNEG[d].len ==> INRANGE(VARLIST[v]->ATOMRECNEG[d].el[k]))
group HREQ
  cell@cnt: CELL(var,val)
  wfc@cnt: forall c, b {CLAUSELIST[c],CLAUSELIST[b]} :: INRANGE(c) && INRANGE(b) && c != b ==> CLAUSELIST[c] != CLAUSELIST[b]
  recr@cnt: forall k {VARLIST[var]->ATOMRECPOS[val].el[k]} {VARLIST[var]->ATOMRECNEG[val].el[k]} :: (0 <= k < VARLIST[var]->ATOMRECPOS[val].len ==> INRANGE(VARLIST[var]->ATOMRECPOS[val].el[k])) &&
    (0 <= k < VARLIST[var]->ATOMRECNEG[val].len ==> INRANGE(VARLIST[var]->ATOMRECNEG[val].el[k]))
fn Formula::satisfyClauses(var, equals, val)
  requires *HREQ
  requires level@cnt: LEVEL >= 0
  inv 0 eff@cnt: forall c {CLAUSELIST[c]} :: INRANGE(c) ==> ((entry(CLV(c)) == -1 && NOC((REC(var,equals,val)).el, current.pos, c) >= 1) ? (CLV(c) == LEVEL && NUM(c) == 0) : (CLV(c) == entry(CLV(c)) && NUM(c) == entry(NUM(c))))
  ensures eff@cnt: forall c {CLAUSELIST[c]} :: INRANGE(c) ==> ((old(CLV(c)) == -1 && NOCR(var,equals,val,c) >= 1) ? (CLV(c) == LEVEL && NUM(c) == 0) : (CLV(c) == old(CLV(c)) && NUM(c) == old(NUM(c))))
fn Formula::removeLiteral(var, equals, val)
  requires *HREQ
  requires ulist@cnt: UNITLIST.lo <= UNITLIST.hi
  requires enough@cnt by cnt,eff,recp,recn,cntdiff,asg,wfa,wfv,cell,lev,nocnn,noclnn,cntnn: forall c {CLAUSELIST[c]} :: INRANGE(c) && CLV(c) == -1 ==> NUM(c) == CNT(c) + NOCR(var,equals,val,c)
  inv 0 eff@cnt: forall c {CLAUSELIST[c]} :: INRANGE(c) ==> NUM(c) == entry(NUM(c)) - (CLV(c) == -1 ? NOC((REC(var,equals,val)).el, current.pos, c) : 0)
  inv 0 cc@cnt: CONFLICT ==> (entry(CONFLICT) && CONFLICTINGCLAUSE == entry(CONFLICTINGCLAUSE)) || (INRANGE(CONFLICTINGCLAUSE) && CLV(CONFLICTINGCLAUSE) == -1 && NUM(CONFLICTINGCLAUSE) <= 0)
  inv 0 det@cnt: entry(CONFLICT) ==> CONFLICT
  inv 0 det2@cnt: forall c {CLAUSELIST[c]} :: INRANGE(c) && CLV(c) == -1 && NUM(c) == 0 && entry(NUM(c)) > 0 ==> CONFLICT
  inv 0 uni@cnt: UNITLIST.hi == entry(UNITLIST.hi) && UNITLIST.lo <= entry(UNITLIST.lo)
  inv 0 uni2@cnt: forall p {UNITLIST.el[p]} {entry(UNITLIST.el)[p]} :: p >= entry(UNITLIST.lo) ==> UNITLIST.el[p] == entry(UNITLIST.el)[p]
  inv 0 uni3@cnt: forall p {UNITLIST.el[p]} :: UNITLIST.lo <= p < entry(UNITLIST.lo) ==> INRANGE(UNITLIST.el[p]) && CLV(UNITLIST.el[p]) == -1 && NUM(UNITLIST.el[p]) <= 1
  inv 0 pend@cnt: forall c {CLAUSELIST[c]} :: INRANGE(c) && CLV(c) == -1 && NUM(c) == 1 && entry(NUM(c)) > 1 ==> INU(c)
  ensures eff@cnt: forall c {CLAUSELIST[c]} :: INRANGE(c) ==> NUM(c) == old(NUM(c)) - (CLV(c) == -1 ? NOCR(var,equals,val,c) : 0)
  ensures cc@cnt: CONFLICT ==> (old(CONFLICT) && CONFLICTINGCLAUSE == old(CONFLICTINGCLAUSE)) || (INRANGE(CONFLICTINGCLAUSE) && CLV(CONFLICTINGCLAUSE) == -1 && NUM(CONFLICTINGCLAUSE) == 0)
  ensures det@cnt: old(CONFLICT) ==> CONFLICT
  ensures det2@cnt: forall c {CLAUSELIST[c]} :: INRANGE(c) && CLV(c) == -1 && NUM(c) == 0 && old(NUM(c)) > 0 ==> CONFLICT
  ensures uni@cnt: UNITLIST.hi == old(UNITLIST.hi) && UNITLIST.lo <= old(UNITLIST.lo)
  ensures uni2@cnt: forall p {UNITLIST.el[p]} {old(UNITLIST.el)[p]} :: p >= old(UNITLIST.lo) ==> UNITLIST.el[p] == old(UNITLIST.el)[p]
  ensures uni3@cnt: forall p {UNITLIST.el[p]} :: UNITLIST.lo <= p < old(UNITLIST.lo) ==> INRANGE(UNITLIST.el[p]) && CLV(UNITLIST.el[p]) == -1 && NUM(UNITLIST.el[p]) <= 1
  ensures pend@cnt: forall c {CLAUSELIST[c]} :: INRANGE(c) && CLV(c) == -1 && NUM(c) == 1 && old(NUM(c)) > 1 ==> INU(c)
fn Formula::addLiteral(var, equals, val)
  requires *HREQ
  inv 0 eff@cnt: forall c {CLAUSELIST[c]} :: INRANGE(c) ==> NUM(c) == entry(NUM(c)) + (CLV(c) == -1 ? NOC((REC(var,equals,val)).el, current.pos, c) : 0)
  ensures eff@cnt: forall c {CLAUSELIST[c]} :: INRANGE(c) ==> NUM(c) == old(NUM(c)) + (CLV(c) == -1 ? NOCR(var,equals,val,c) : 0)
fn Formula::unsatisfyClauses(var, equals, val, level)
  requires *HREQ
  requires wfa@cnt: forall c, k {AT(c,k)} :: INRANGE(c) && 0 <= k < SZ(c) ==> litok(AT(c,k))
  requires level@cnt: level >= -1
  inv 0 eff@cnt: forall c {CLAUSELIST[c]} :: INRANGE(c) ==> ((entry(CLV(c)) > level && NOC((REC(var,equals,val)).el, current.pos, c) >= 1) ? (CLV(c) == -1 && NUM(c) == entry(NUM(c)) + CNTW(c,level,NV,0)) : (CLV(c) == entry(CLV(c)) && NUM(c) == entry(NUM(c))))
  inv 1 lev@cnt: forall c {CLAUSELIST[c]} :: INRANGE(c) ==> CLV(c) == entry(CLV(c))
  inv 1 one@cnt: NUM((REC(var,equals,val)).el[current.pos]) == entry(NUM((REC(var,equals,val)).el[current.pos])) + CNTP(AL((REC(var,equals,val)).el[current.pos]), i, VARLIST.el, @Variable.ATOMASSIGN.el, @Variable.ATOMLEVEL.el, level, NV, 0)
  inv 1 others@cnt: forall c {CLAUSELIST[c]} :: INRANGE(c) && c != (REC(var,equals,val)).el[current.pos] ==> NUM(c) == entry(NUM(c))
  ensures eff@cnt: forall c {CLAUSELIST[c]} :: INRANGE(c) ==> ((old(CLV(c)) > level && NOCR(var,equals,val,c) >= 1) ? (CLV(c) == -1 && NUM(c) == old(NUM(c)) + CNTW(c,level,NV,0)) : (CLV(c) == old(CLV(c)) && NUM(c) == old(NUM(c))))
define CID(v,d) := VARLIST[v]->CLAUSEID[d]
define IDX(v,d) := VARLIST[v]->ATOMINDEX[d]
define VALOF(v) := VARLIST[v]->VAL
define TRUECL(c,k) := istrue(AT(c,k))
define LVL(l) := LV(l.VAR,l.VAL)
group CSTATE
  asg: forall v, d {A(v,d)} {LV(v,d)} :: CELL(v,d) ==> (A(v,d) == 0 || A(v,d) == 1 || A(v,d) == -1) && (A(v,d) == 0 ? LV(v,d) == -10 : LV(v,d) >= 0)
  cnt: forall c {CLAUSELIST[c]} :: INRANGE(c) && CLV(c) == -1 ==> NUM(c) == CNT(c)
  satw by satw,eff,recp,recn,noclex,wfa,wfv,cell,asg,nocnn,lev,cnt,keep,sat,swp,vals: forall c {CLAUSELIST[c]} :: INRANGE(c) && CLV(c) != -1 ==> CLV(c) >= 0 && NUM(c) == 0 && (exists k {AT(c,k)} :: 0 <= k < SZ(c) && istrue(AT(c,k)) && LVL(AT(c,k)) == CLV(c))
  satm: forall c, k {AT(c,k)} :: INRANGE(c) && 0 <= k < SZ(c) && istrue(AT(c,k)) ==> CLV(c) != -1 && CLV(c) <= LVL(AT(c,k))
  val: forall v {VALOF(v)} :: 1 <= v < NV ==> VALOF(v) == -1 || (CELL(v,VALOF(v)) && A(v,VALOF(v)) == 1)
  valm: forall v, d {A(v,d)} :: CELL(v,d) && A(v,d) == 1 ==> VALOF(v) == d
  valx: forall v, d {LV(v,d)} :: CELL(v,d) && VALOF(v) != -1 ==> LV(v,d) <= LV(v,VALOF(v))
  dsok: forall p {DECSTACK[p]} :: 0 <= p < DECSTACK.len ==> litok(DECSTACK[p]) && istrue(DECSTACK[p])
  mono: forall p, q {DECSTACK[p],DECSTACK[q]} :: 0 <= p <= q && q < DECSTACK.len ==> LVL(DECSTACK[p]) <= LVL(DECSTACK[q])
define UNDONE(v,d) := A(v,d) == 0 && LV(v,d) == -10 && CID(v,d) == -10
define SAMECELL(v,d) := A(v,d) == old(A(v,d)) && LV(v,d) == old(LV(v,d)) && CID(v,d) == old(CID(v,d))
define BEFORE(v,d,i,j) := v < i || (v == i && d < j)
define OCNTW(c,L) := CNTP(CLAUSELIST[c]->ATOM_LIST.el, SZ(c), VARLIST.el, old(@Variable.ATOMASSIGN.el), old(@Variable.ATOMLEVEL.el), L, NV, 0)
define OLV(v,d) := old(LV(v,d))
fn Formula::undoTheory(level)
  requires lvl@cnt: level >= -1
  requires *WF @cnt
  requires *CSTATE @cnt
  inv 0 p1@cnt: forall c {CLAUSELIST[c]} :: INRANGE(c) ==> NUM(c) == (CLV(c) == -1 ? CNTW(c,level,i,0) : 0)
  inv 1 p1@cnt: forall c {CLAUSELIST[c]} :: INRANGE(c) ==> NUM(c) == (CLV(c) == -1 ? CNTW(c,level,i,j) : 0)
  inv 2 cell@cnt: forall v, d {A(v,d)} {LV(v,d)} {CID(v,d)} :: CELL(v,d) ==> (OLV(v,d) > level && v < i ? UNDONE(v,d) : SAMECELL(v,d))
  inv 2 vala@cnt: forall v, d {OLV(v,d)} :: CELL(v,d) && v < i && OLV(v,d) > level ==> VALOF(v) == -1
  inv 2 valb@cnt: forall v {VALOF(v)} :: 1 <= v < NV ==> VALOF(v) == old(VALOF(v)) || (VALOF(v) == -1 && (exists d {OLV(v,d)} :: CELL(v,d) && OLV(v,d) > level))
  inv 2 sat@cnt: forall c {CLAUSELIST[c]} :: INRANGE(c) ==> CLV(c) == old(CLV(c)) || (old(CLV(c)) > level && CLV(c) == -1)
  inv 2 p2@cnt: forall c {CLAUSELIST[c]} :: INRANGE(c) ==> NUM(c) == (CLV(c) == -1 ? OCNTW(c,level) : 0)
  inv 2 swp@cnt: forall c, k {AT(c,k)} :: INRANGE(c) && 0 <= k < SZ(c) && AT(c,k).VAR < i && old(istrue(AT(c,k))) && old(LVL(AT(c,k))) > level ==> CLV(c) <= level
  inv 3 cell@cnt: forall v, d {A(v,d)} {LV(v,d)} {CID(v,d)} :: CELL(v,d) ==> (OLV(v,d) > level && BEFORE(v,d,i,j) ? UNDONE(v,d) : SAMECELL(v,d))
  inv 3 vala@cnt: forall v, d {OLV(v,d)} :: CELL(v,d) && BEFORE(v,d,i,j) && OLV(v,d) > level ==> VALOF(v) == -1
  inv 3 valb@cnt: forall v {VALOF(v)} :: 1 <= v < NV ==> VALOF(v) == old(VALOF(v)) || (VALOF(v) == -1 && (exists d {OLV(v,d)} :: CELL(v,d) && OLV(v,d) > level))
  inv 3 sat@cnt: forall c {CLAUSELIST[c]} :: INRANGE(c) ==> CLV(c) == old(CLV(c)) || (old(CLV(c)) > level && CLV(c) == -1)
  inv 3 p2@cnt: forall c {CLAUSELIST[c]} :: INRANGE(c) ==> NUM(c) == (CLV(c) == -1 ? OCNTW(c,level) : 0)
  inv 3 swp@cnt: forall c, k {AT(c,k)} :: INRANGE(c) && 0 <= k < SZ(c) && BEFORE(AT(c,k).VAR,AT(c,k).VAL,i,j) && old(istrue(AT(c,k))) && old(LVL(AT(c,k))) > level ==> CLV(c) <= level
  inv 4 len@cnt: i + 1 <= DECSTACK.len && DECSTACK.len <= old(DECSTACK.len) && i >= -1
  inv 4 pre@cnt: forall p {DECSTACK[p]} {old(DECSTACK.el)[p]} :: 0 <= p < DECSTACK.len ==> DECSTACK[p] == old(DECSTACK.el)[p]
  inv 4 tail@cnt: forall p {old(DECSTACK.el)[p]} :: DECSTACK.len <= p < old(DECSTACK.len) ==> OLV(old(DECSTACK.el)[p].VAR,old(DECSTACK.el)[p].VAL) > level
  inv 4 kept@cnt: forall p {old(DECSTACK.el)[p]} {DECSTACK[p]} :: i < p < DECSTACK.len ==> DECSTACK[p] == old(DECSTACK.el)[p] && OLV(old(DECSTACK.el)[p].VAR,old(DECSTACK.el)[p].VAL) <= level
  ensures cell@cnt: forall v, d {A(v,d)} {LV(v,d)} {CID(v,d)} {OLV(v,d)} :: CELL(v,d) ==> (OLV(v,d) > level ? UNDONE(v,d) : SAMECELL(v,d))
  ensures vals@cnt: forall v {VALOF(v)} :: 1 <= v < NV ==> VALOF(v) == (old(VALOF(v)) != -1 && OLV(v,old(VALOF(v))) <= level ? old(VALOF(v)) : -1)
  ensures sat@cnt: forall c {CLAUSELIST[c]} :: INRANGE(c) ==> CLV(c) == (old(CLV(c)) > level ? -1 : old(CLV(c)))
  ensures dlen@cnt: DECSTACK.len <= old(DECSTACK.len)
  ensures dpre@cnt: forall p {DECSTACK[p]} {old(DECSTACK.el)[p]} :: 0 <= p < DECSTACK.len ==> DECSTACK[p] == old(DECSTACK.el)[p]
  ensures dcut@cnt: forall p {old(DECSTACK.el)[p]} :: 0 <= p < old(DECSTACK.len) ==> (p < DECSTACK.len <==> OLV(old(DECSTACK.el)[p].VAR,old(DECSTACK.el)[p].VAL) <= level)
  ensures *CSTATE @cnt
group WSTATE
  wfv: NV >= 1 && DOM(0) == 0 && (forall v {VARLIST[v]} :: 0 <= v < NV ==> VARLIST[v]->VAR == v)
  asg: forall v, d {A(v,d)} {LV(v,d)} :: CELL(v,d) ==> (A(v,d) == 0 || A(v,d) == 1 || A(v,d) == -1) && (A(v,d) == 0 ? LV(v,d) == -10 : LV(v,d) >= 0)
  val: forall v {VALOF(v)} :: 1 <= v < NV ==> VALOF(v) == -1 || (CELL(v,VALOF(v)) && A(v,VALOF(v)) == 1)
  valm: forall v, d {A(v,d)} :: CELL(v,d) && A(v,d) == 1 ==> VALOF(v) == d
  valx: forall v, d {LV(v,d)} :: CELL(v,d) && VALOF(v) != -1 ==> LV(v,d) <= LV(v,VALOF(v))
  dsok: forall p {DECSTACK[p]} :: 0 <= p < DECSTACK.len ==> litok(DECSTACK[p]) && istrue(DECSTACK[p])
  mono: forall p, q {DECSTACK[p],DECSTACK[q]} :: 0 <= p <= q && q < DECSTACK.len ==> LVL(DECSTACK[p]) <= LVL(DECSTACK[q])
fn Formula::watchedUndoTheory(level)
  requires lvl@cnt: level >= -1
  requires *WSTATE @cnt
  inv 0 cell@cnt: forall v, d {A(v,d)} {LV(v,d)} {CID(v,d)} :: CELL(v,d) ==> (OLV(v,d) > level && v < i ? UNDONE(v,d) : SAMECELL(v,d))
  inv 0 vala@cnt: forall v, d {OLV(v,d)} :: CELL(v,d) && v < i && OLV(v,d) > level ==> VALOF(v) == -1
  inv 0 valb@cnt: forall v {VALOF(v)} :: 1 <= v < NV ==> VALOF(v) == old(VALOF(v)) || (VALOF(v) == -1 && (exists d {OLV(v,d)} :: CELL(v,d) && OLV(v,d) > level))
  inv 1 cell@cnt: forall v, d {A(v,d)} {LV(v,d)} {CID(v,d)} :: CELL(v,d) ==> (OLV(v,d) > level && BEFORE(v,d,i,j) ? UNDONE(v,d) : SAMECELL(v,d))
  inv 1 vala@cnt: forall v, d {OLV(v,d)} :: CELL(v,d) && BEFORE(v,d,i,j) && OLV(v,d) > level ==> VALOF(v) == -1
  inv 1 valb@cnt: forall v {VALOF(v)} :: 1 <= v < NV ==> VALOF(v) == old(VALOF(v)) || (VALOF(v) == -1 && (exists d {OLV(v,d)} :: CELL(v,d) && OLV(v,d) > level))
  inv 2 len@cnt: i + 1 <= DECSTACK.len && DECSTACK.len <= old(DECSTACK.len) && i >= -1
  inv 2 pre@cnt: forall p {DECSTACK[p]} {old(DECSTACK.el)[p]} :: 0 <= p < DECSTACK.len ==> DECSTACK[p] == old(DECSTACK.el)[p]
  inv 2 tail@cnt: forall p {old(DECSTACK.el)[p]} :: DECSTACK.len <= p < old(DECSTACK.len) ==> OLV(old(DECSTACK.el)[p].VAR,old(DECSTACK.el)[p].VAL) > level
  inv 2 kept@cnt: forall p {old(DECSTACK.el)[p]} {DECSTACK[p]} :: i < p < DECSTACK.len ==> DECSTACK[p] == old(DECSTACK.el)[p] && OLV(old(DECSTACK.el)[p].VAR,old(DECSTACK.el)[p].VAL) <= level
  ensures cell@cnt: forall v, d {A(v,d)} {LV(v,d)} {CID(v,d)} {OLV(v,d)} :: CELL(v,d) ==> (OLV(v,d) > level ? UNDONE(v,d) : SAMECELL(v,d))
  ensures vals@cnt: forall v {VALOF(v)} :: 1 <= v < NV ==> VALOF(v) == (old(VALOF(v)) != -1 && OLV(v,old(VALOF(v))) <= level ? old(VALOF(v)) : -1)
  ensures dlen@cnt: DECSTACK.len <= old(DECSTACK.len)
  ensures dpre@cnt: forall p {DECSTACK[p]} {old(DECSTACK.el)[p]} :: 0 <= p < DECSTACK.len ==> DECSTACK[p] == old(DECSTACK.el)[p]
  ensures dcut@cnt: forall p {old(DECSTACK.el)[p]} :: 0 <= p < old(DECSTACK.len) ==> (p < DECSTACK.len <==> OLV(old(DECSTACK.el)[p].VAR,old(DECSTACK.el)[p].VAL) <= level)
  ensures *WSTATE @cnt
