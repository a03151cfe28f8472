# the watch lists (watched-literal search)
fn Variable::Variable/2(var, domain)
  inv 0 heads@prw: forall d {this->ATOMWATCHPOS[d]} {this->ATOMWATCHNEG[d]} :: 0 <= d && d < i ==> this->ATOMWATCHPOS[d] == null && this->ATOMWATCHNEG[d] == null
  inv 0 samew@prw: forall p:Variable {p->ATOMWATCHPOS.el} {p->ATOMWATCHNEG.el} :: p != this ==> p->ATOMWATCHPOS.el == entry(p->ATOMWATCHPOS.el) && p->ATOMWATCHNEG.el == entry(p->ATOMWATCHNEG.el)
  ensures heads@prw: forall d {this->ATOMWATCHPOS[d]} {this->ATOMWATCHNEG[d]} :: 0 <= d && d < domain ==> this->ATOMWATCHPOS[d] == null && this->ATOMWATCHNEG[d] == null
  ensures samew@prw: forall p:Variable {p->ATOMWATCHPOS.el} {p->ATOMWATCHNEG.el} :: p != this ==> p->ATOMWATCHPOS.el == old(p->ATOMWATCHPOS.el) && p->ATOMWATCHNEG.el == old(p->ATOMWATCHNEG.el)
fn Formula::BuildFormula(cline)
  requires mode@prw: WATCH
  requires wheur@prw: heuristic != BK
  requires none@prw: forall r:VARRECORD {own[r]} :: !INL(r)
  inv 0 mode@prw: WATCH
  inv 0 wheur@prw: heuristic != BK
  inv 0 *WAT -wfv -wfc -wfa -wat0 -wat1 @prw
  inv 0 wat0@prw by wat0,mem,cwf,wfc,num: forall c {CLAUSELIST[c]} :: INRANGE(c) && SZ(c) >= 1 ==> litok(W0(c)) && (exists k {AT(c,k)} :: 0 <= k && k < SZ(c) && AT(c,k) == W0(c))
  inv 0 wat1@prw by wat1,mem,cwf,wfc,num,nodup: forall c {CLAUSELIST[c]} :: INRANGE(c) && SZ(c) >= 2 ==> litok(W1(c)) && W0(c) != W1(c) && (exists k {AT(c,k)} :: 0 <= k && k < SZ(c) && AT(c,k) == W1(c))
  inv 0 *PHEUR
  inv 1 mode@prw: WATCH
  inv 1 wheur@prw: heuristic != BK
  inv 1 *WAT -wfv -wfc -wfa -wat0 -wat1 @prw
  inv 1 wat0@prw by wat0,mem,cwf,wfc,num: forall c {CLAUSELIST[c]} :: INRANGE(c) && SZ(c) >= 1 ==> litok(W0(c)) && (exists k {AT(c,k)} :: 0 <= k && k < SZ(c) && AT(c,k) == W0(c))
  inv 1 wat1@prw by wat1,mem,cwf,wfc,num,nodup: forall c {CLAUSELIST[c]} :: INRANGE(c) && SZ(c) >= 2 ==> litok(W1(c)) && W0(c) != W1(c) && (exists k {AT(c,k)} :: 0 <= k && k < SZ(c) && AT(c,k) == W1(c))
  inv 5 mode@prw: WATCH
  inv 5 wheur@prw: heuristic != BK
  inv 5 *WAT -wfv -wfc -wfa @prw
  ensures *WLINV @prw
