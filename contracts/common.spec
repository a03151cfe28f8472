# Vocabulary shared by all contracts of the solver in /repo/src.
define A(v,d) := VARLIST[v]->ATOMASSIGN[d]
define LV(v,d) := VARLIST[v]->ATOMLEVEL[d]
define DOM(v) := VARLIST[v]->DOMAINSIZE
define NV := VARLIST.len
define NC := CLAUSELIST.len
define SZ(c) := CLAUSELIST[c]->ATOM_LIST.len
define AT(c,k) := CLAUSELIST[c]->ATOM_LIST[k]
define litok(l) := 1 <= l.VAR && l.VAR < VARLIST.len && 0 <= l.VAL && l.VAL < DOM(l.VAR)
define istrue(l) := A(l.VAR,l.VAL) == (l.EQUAL ? 1 : -1)
define isfalse(l) := A(l.VAR,l.VAL) == (l.EQUAL ? -1 : 1)
define isopen(l) := A(l.VAR,l.VAL) == 0
fn Clause::Print()
  opt contract
fn Formula::PrintModel()
  opt contract
fn Formula::PrintInfo()
  opt contract
