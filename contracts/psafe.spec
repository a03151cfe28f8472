# Memory safety of the parser, and what it leaves for the search.
define VSAMEL(p) := p->ATOMINDEX.len == old(p->ATOMINDEX.len) && p->ATOMLEVEL.len == old(p->ATOMLEVEL.len) && p->ATOMASSIGN.len == old(p->ATOMASSIGN.len) && p->ATOMCNTPOS.len == old(p->ATOMCNTPOS.len) && p->ATOMCNTNEG.len == old(p->ATOMCNTNEG.len) && p->VSIDS_SCORE.len == old(p->VSIDS_SCORE.len) && p->VSIDS_SCORE_NEG.len == old(p->VSIDS_SCORE_NEG.len) && p->ATOMWATCHPOS.len == old(p->ATOMWATCHPOS.len) && p->ATOMWATCHNEG.len == old(p->ATOMWATCHNEG.len) && p->ATOMRECPOS.len == old(p->ATOMRECPOS.len) && p->ATOMRECNEG.len == old(p->ATOMRECNEG.len) && p->CLAUSEID.len == old(p->CLAUSEID.len) && p->DOMAINSIZE == old(p->DOMAINSIZE)
fn Variable::Variable/2(var, domain)
  requires live@safe: this != null && alloc(this)
  ensures lens@safe: VLENS(this) && this->CLAUSEID.len == domain
  ensures samel@safe: forall p:Variable {p->ATOMINDEX.len} {p->ATOMLEVEL.len} {p->ATOMASSIGN.len} {p->ATOMCNTPOS.len} {p->ATOMCNTNEG.len} {p->VSIDS_SCORE.len} {p->VSIDS_SCORE_NEG.len} {p->ATOMWATCHPOS.len} {p->ATOMWATCHNEG.len} {p->ATOMRECPOS.len} {p->ATOMRECNEG.len} {p->CLAUSEID.len} {p->DOMAINSIZE} :: p != this ==> VSAMEL(p)
fn Formula::BuildFormula(cline)
  inv 0 *VSAFE @safe
  inv 1 *VSAFE @safe
  inv 5 *VSAFE @safe
  inv 0 uclause@safe: UNITCLAUSE == old(UNITCLAUSE)
  inv 1 uclause@safe: UNITCLAUSE == old(UNITCLAUSE)
  inv 5 uclause@safe: UNITCLAUSE == old(UNITCLAUSE)
  ensures *SAFE @safe
  ensures uclause@safe: UNITCLAUSE == old(UNITCLAUSE)
fn Formula::Formula/1(cline)
  ensures uclause@safe: UNITCLAUSE == 0-1
