# the record lists (counter-based searches)
define VSAMER(p,d) := p->ATOMRECPOS[d].el == old(p->ATOMRECPOS[d].el) && p->ATOMRECPOS[d].len == old(p->ATOMRECPOS[d].len) && p->ATOMRECNEG[d].el == old(p->ATOMRECNEG[d].el) && p->ATOMRECNEG[d].len == old(p->ATOMRECNEG[d].len)
fn Variable::Variable/2(var, domain)
  ensures rec@prc: forall d {this->ATOMRECPOS[d].len} {this->ATOMRECNEG[d].len} :: 0 <= d && d < domain ==> this->ATOMRECPOS[d].len == 0 && this->ATOMRECNEG[d].len == 0
  ensures samer@prc: forall p:Variable, d {p->ATOMRECPOS[d].el} {p->ATOMRECPOS[d].len} {p->ATOMRECNEG[d].el} {p->ATOMRECNEG[d].len} :: p != this ==> VSAMER(p,d)
lemma noclst@prc by def.nocl,nocl0 induct n: forall el:larr, n; t:lit; m:int; y:lit {NOCL(store(el,m,y),n,t)} :: n <= m ==> NOCL(store(el,m,y),n,t) == NOCL(el,n,t)
lemma noclpush@prc by nocl1,noclst,nocl0: forall el:larr, n; y:lit; t:lit; m:int {NOCL(store(el,n,y),m,t)} :: m == n + 1 && n >= 0 ==> NOCL(store(el,n,y),n,t) == NOCL(el,n,t) && store(el,n,y)[n] == y && NOCL(store(el,n,y),m,t) == NOCL(store(el,n,y),n,t) + (y == t ? 1 : 0)
lemma cntall@prc by def.cnt,cnt0 induct n: forall el:larr, n; VL:iarr, AS:iarr2, LV:iarr2, L, i, j {CNTP(el,n,VL,AS,LV,L,i,j)} :: (forall k {el[k]} :: 0 <= k < n ==> WM(el[k],VL,AS,LV,L,i,j)) && n >= 0 ==> CNTP(el,n,VL,AS,LV,L,i,j) == n
group PRECS
  mode@prc: !WATCH
  recp@prc: forall v, d, c {NOC(VARLIST[v]->ATOMRECPOS[d].el, VARLIST[v]->ATOMRECPOS[d].len, c)} :: CELL(v,d) && INRANGE(c) ==>
    NOC(VARLIST[v]->ATOMRECPOS[d].el, VARLIST[v]->ATOMRECPOS[d].len, c) == NOCL(AL(c),SZ(c),lit(v,d,true))
  recn@prc: forall v, d, c {NOC(VARLIST[v]->ATOMRECNEG[d].el, VARLIST[v]->ATOMRECNEG[d].len, c)} :: CELL(v,d) && INRANGE(c) ==>
    NOC(VARLIST[v]->ATOMRECNEG[d].el, VARLIST[v]->ATOMRECNEG[d].len, c) == NOCL(AL(c),SZ(c),lit(v,d,false))
group PRECR
  recr@prc: forall v, d, k {VARLIST[v]->ATOMRECPOS[d].el[k]} {VARLIST[v]->ATOMRECNEG[d].el[k]} :: CELL(v,d) ==>
    (0 <= k < VARLIST[v]->ATOMRECPOS[d].len ==> INRANGE(VARLIST[v]->ATOMRECPOS[d].el[k])) && (0 <= k < VARLIST[v]->ATOMRECNEG[d].len ==> INRANGE(VARLIST[v]->ATOMRECNEG[d].el[k]))
  recl@prc: forall v, d {VARLIST[v]->ATOMRECPOS[d].len} {VARLIST[v]->ATOMRECNEG[d].len} :: CELL(v,d) ==> VARLIST[v]->ATOMRECPOS[d].len >= 0 && VARLIST[v]->ATOMRECNEG[d].len >= 0
fn Formula::BuildFormula(cline)
  requires mode@prc: !WATCH
  inv 0 *PRECS
  inv 0 *PRECR
  inv 1 *PRECS
  inv 1 recr1@prc: forall v, d, k {VARLIST[v]->ATOMRECPOS[d].el[k]} {VARLIST[v]->ATOMRECNEG[d].el[k]} :: CELL(v,d) ==>
    (0 <= k < VARLIST[v]->ATOMRECPOS[d].len ==> 0 <= VARLIST[v]->ATOMRECPOS[d].el[k] && VARLIST[v]->ATOMRECPOS[d].el[k] <= NC) && (0 <= k < VARLIST[v]->ATOMRECNEG[d].len ==> 0 <= VARLIST[v]->ATOMRECNEG[d].el[k] && VARLIST[v]->ATOMRECNEG[d].el[k] <= NC)
  inv 1 recl@prc: forall v, d {VARLIST[v]->ATOMRECPOS[d].len} {VARLIST[v]->ATOMRECNEG[d].len} :: CELL(v,d) ==> VARLIST[v]->ATOMRECPOS[d].len >= 0 && VARLIST[v]->ATOMRECNEG[d].len >= 0
  inv 5 *PRECS
  inv 5 *PRECR
  ensures *NCINV @prc
