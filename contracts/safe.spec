# C19: memory safety of the search.  Every listed variable and clause is live and every table of a variable has
# one entry for each value of its domain.
define VLENS(p) := p->ATOMINDEX.len == p->DOMAINSIZE && p->ATOMLEVEL.len == p->DOMAINSIZE && p->ATOMASSIGN.len == p->DOMAINSIZE && p->ATOMCNTPOS.len == p->DOMAINSIZE && p->ATOMCNTNEG.len == p->DOMAINSIZE && p->VSIDS_SCORE.len == p->DOMAINSIZE && p->VSIDS_SCORE_NEG.len == p->DOMAINSIZE && p->ATOMWATCHPOS.len == p->DOMAINSIZE && p->ATOMWATCHNEG.len == p->DOMAINSIZE && p->ATOMRECPOS.len == p->DOMAINSIZE && p->ATOMRECNEG.len == p->DOMAINSIZE
group VSAFE
  vsafe@safe: forall v {VARLIST[v]} :: 0 <= v && v < NV ==> VARLIST[v] != null && alloc(VARLIST[v]) && VLENS(VARLIST[v])
  vlen0@safe: forall v {VARLIST[v]} :: 1 <= v && v < NV ==> VARLIST[v]->CLAUSEID.len == DOM(v)
group SAFE
  *VSAFE
  csafe@safe by csafe: forall c {CLAUSELIST[c]} :: INRANGE(c) ==> CLAUSELIST[c] != null && alloc(CLAUSELIST[c])
define LITS(p) := forall k {p->ATOM_LIST[k]} :: 0 <= k && k < p->ATOM_LIST.len ==> litok(p->ATOM_LIST[k])
fn Formula::hasAtom(clause, atom)
  requires live@safe: clause != null && alloc(clause)
fn Formula::resolve(clause, literal, reason)
  requires live2@safe: clause != null && reason != null && alloc(clause) && alloc(reason)
  inv 0 new2@safe: resolvent != null
  inv 1 new2@safe: resolvent != null
  ensures new2@safe: result != null && alloc(result)
fn Formula::potent(clause)
  requires *SAFE
  requires w1@safe: WATCH && clause->ATOM_LIST.len != 1 ==> litok(clause->WATCHED[1])
  requires live@safe: clause != null && alloc(clause)
  requires lits@safe: LITS(clause)
fn Formula::maxLit(clause)
  requires *SAFE
  requires live@safe: clause != null && alloc(clause)
  requires lits@safe: LITS(clause)
fn Formula::assignWatched(clause)
  requires *SAFE
  requires live@safe: clause != null && alloc(clause)
  requires lits@safe: LITS(clause)
fn Formula::learnClause(clause)
  requires *SAFE
  requires live2@safe: clause != null && alloc(clause)
  requires lits@safe: LITS(clause)
  ensures *SAFE
fn Formula::backtrackLevel(learnedClause)
  requires *SAFE
  requires live@safe: learnedClause != null && alloc(learnedClause)
  requires lits@safe: LITS(learnedClause)
fn Formula::analyzeConflict(clause, free)
  requires *SAFE
  requires live2@safe: clause != null && alloc(clause)
  inv 0 made2@safe: reason != null
  ensures *SAFE
  ensures live2@safe: result != null && alloc(result)
fn Formula::checkEntail(var)
  requires *VSAFE
  requires var@safe: 1 <= var && var < NV
fn Formula::reduceTheory(var, equals, val)
  requires *SAFE
  requires ucs@safe: UNITCLAUSE < NC
  ensures ucs@safe: UNITCLAUSE < NC
fn Formula::watchedReduceTheory(lit)
  requires *SAFE
fn Formula::watchedFalsifyLiteral(lit)
  requires *SAFE
fn Formula::SwapPointer(current)
  requires *SAFE
fn Formula::undoTheory(level)
  requires *SAFE
fn Formula::watchedUndoTheory(level)
  requires *SAFE
fn Formula::satisfyClauses(var, equals, val)
  requires *SAFE
  requires wfa@safe: forall c, k {AT(c,k)} :: INRANGE(c) && 0 <= k && k < SZ(c) ==> litok(AT(c,k))
fn Formula::removeLiteral(var, equals, val)
  requires *SAFE
fn Formula::addLiteral(var, equals, val)
  requires *SAFE
fn Formula::unsatisfyClauses(var, equals, val, level)
  requires *SAFE
fn Formula::unitPropagation()
  requires *SAFE
  requires ucs@safe: UNITCLAUSE < NC
  inv 0 ucs@safe: UNITCLAUSE < NC
  ensures ucs@safe: UNITCLAUSE < NC
fn Formula::WatchedUnitPropagation()
  requires *SAFE
fn Variable::addRecord(c_id, d_id, flag)
  requires live@safe: this != null && alloc(this) && VLENS(this) && 0 <= d_id && d_id < this->DOMAINSIZE
fn Variable::removeRecord(record, d_id, flag)
  requires live@safe: this != null && alloc(this) && VLENS(this) && 0 <= d_id && d_id < this->DOMAINSIZE
fn Formula::NonChronoBacktrack(restarts)
  requires *SAFE
  requires ucs@safe: UNITCLAUSE < NC
  inv 0 *SAFE
  inv 0 ucs@safe: UNITCLAUSE < NC
  cut unitPropagation ucs@safe: UNITCLAUSE < NC
  cut chooseLiteral ucs@safe: UNITCLAUSE < NC
  cut unitPropagation *VSAFE @safe
  cut unitPropagation csafe@safe by csafe: forall c {CLAUSELIST[c]} :: INRANGE(c) ==> CLAUSELIST[c] != null && alloc(CLAUSELIST[c])
  cut chooseLiteral *VSAFE @safe
  cut chooseLiteral csafe@safe by csafe: forall c {CLAUSELIST[c]} :: INRANGE(c) ==> CLAUSELIST[c] != null && alloc(CLAUSELIST[c])
fn Formula::WatchedLiterals(restarts)
  requires *SAFE
  inv 0 *SAFE
  cut WatchedUnitPropagation *VSAFE @safe
  cut WatchedUnitPropagation csafe@safe by csafe: forall c {CLAUSELIST[c]} :: INRANGE(c) ==> CLAUSELIST[c] != null && alloc(CLAUSELIST[c])
  cut chooseLiteralVSIDS *VSAFE @safe
  cut chooseLiteralVSIDS csafe@safe by csafe: forall c {CLAUSELIST[c]} :: INRANGE(c) ==> CLAUSELIST[c] != null && alloc(CLAUSELIST[c])
fn Formula::ChronoBacktrack(level)
  requires *SAFE
  ensures *SAFE
  requires ucs@safe: UNITCLAUSE < NC
  ensures ucs@safe: UNITCLAUSE < NC
fn Formula::chooseLiteral()
  requires *VSAFE
  ensures ucs@safe: UNITCLAUSE == 0-1
fn Formula::chooseLiteralVSIDS()
  requires *VSAFE
  ensures ucs@safe: UNITCLAUSE == 0-1
fn Formula::chooseLiteralVSIDS_allPos()
  requires *VSAFE
  ensures ucs@safe: UNITCLAUSE == 0-1
fn Formula::lazyChooseLiteral()
  requires *SAFE
fn Formula::lazyWatchedChooseLiteral()
  requires *SAFE
fn Formula::verifyModel()
  requires *SAFE
  requires lits@safe: forall c, k {AT(c,k)} :: INRANGE(c) && 0 <= k && k < SZ(c) ==> litok(AT(c,k))
fn Clause::Print()
  requires live@safe: this != null && alloc(this)
# The model is printed and verified only after the search; it leaves the same safe state.
fn Formula::NonChronoBacktrack(restarts)
  ensures *SAFE @safe
  ensures lits@safe: forall c, k {AT(c,k)} :: INRANGE(c) && 0 <= k && k < SZ(c) ==> litok(AT(c,k))
fn Formula::WatchedLiterals(restarts)
  ensures *SAFE @safe
  ensures lits@safe: forall c, k {AT(c,k)} :: INRANGE(c) && 0 <= k && k < SZ(c) ==> litok(AT(c,k))
fn Formula::ChronoBacktrack(level)
  ensures lits@safe: forall c, k {AT(c,k)} :: INRANGE(c) && 0 <= k && k < SZ(c) ==> litok(AT(c,k))
