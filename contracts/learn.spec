# C07: every learned clause is a consequence of the input.  MV is an arbitrary assignment that
# picks a value of its domain for every variable and satisfies every clause of the input.
function MV(int): int
define MTRUE(l) := (MV(l.VAR) == l.VAL) <==> l.EQUAL
define CSAT(p) := exists k {p->ATOM_LIST[k]} :: 0 <= k < p->ATOM_LIST.len && MTRUE(p->ATOM_LIST[k])
define ALLSAT := forall c {CLAUSELIST[c]} :: 0 <= c < NC ==> CSAT(CLAUSELIST[c])
define MDOM := forall v {DOM(v)} {MV(v)} :: 1 <= v < NV ==> 0 <= MV(v) && MV(v) < DOM(v)
define ALIVE := forall c {CLAUSELIST[c]} :: 0 <= c < NC ==> alloc(CLAUSELIST[c])
define NOTIN(p) := forall c {CLAUSELIST[c]} :: 0 <= c < NC ==> CLAUSELIST[c] != p
define KEPT(p) := p->ATOM_LIST.len == old(p->ATOM_LIST.len) && p->ATOM_LIST.el == old(p->ATOM_LIST.el)
define VARS0 := NV >= 1 && DOM(0) == 0 && VARLIST[0]->CLAUSEID.len == 0
fn Formula::hasAtom(clause, atom)
  inv 0 no@c07: forall k {clause->ATOM_LIST[k]} :: 0 <= k < i ==> clause->ATOM_LIST[k] != atom
  ensures iff@c07: result <==> (exists k {clause->ATOM_LIST[k]} :: 0 <= k < clause->ATOM_LIST.len && clause->ATOM_LIST[k] == atom)
fn Formula::resolve(clause, literal, reason)
  requires live@c07: alloc(clause) && alloc(reason) && ALIVE
  requires sat@c07s by sat,live,vars,mdom,kept,one,vals,made,cid,cidr,false,in,mem,mode: CSAT(clause) && CSAT(reason)
  inv 0 kept@c07: forall p:Clause {p->ATOM_LIST.len} {p->ATOM_LIST.el} {alloc(p)} :: old(alloc(p)) ==> alloc(p) && p != resolvent && KEPT(p)
  inv 0 new@c07: alloc(resolvent)
  inv 0 left@c07s: forall k {clause->ATOM_LIST[k]} :: 0 <= k < i && MTRUE(clause->ATOM_LIST[k]) && !MTRUE(literal) ==> CSAT(resolvent)
  inv 1 kept@c07: forall p:Clause {p->ATOM_LIST.len} {p->ATOM_LIST.el} {alloc(p)} :: old(alloc(p)) ==> alloc(p) && p != resolvent && KEPT(p)
  inv 1 new@c07: alloc(resolvent)
  inv 1 left@c07s: !MTRUE(literal) ==> CSAT(resolvent)
  inv 1 right@c07s: forall k {reason->ATOM_LIST[k]} :: 0 <= k < i && MTRUE(reason->ATOM_LIST[k]) && MTRUE(literal) ==> CSAT(resolvent)
  ensures sound@c07s: CSAT(result)
  ensures fresh@c07: alloc(result) && !old(alloc(result))
  ensures kept@c07: forall p:Clause {p->ATOM_LIST.len} {p->ATOM_LIST.el} {alloc(p)} :: old(alloc(p)) ==> alloc(p) && KEPT(p)
fn Formula::learnClause(clause)
  requires live@c07: alloc(clause) && ALIVE
  requires sat@c07s by sat,live: ALLSAT && CSAT(clause)
  ensures list@c07: NC == old(NC) + 1 && CLAUSELIST[NC-1] == clause
  ensures first@c07: forall c {CLAUSELIST[c]} :: 0 <= c < old(NC) ==> CLAUSELIST[c] == old(CLAUSELIST[c])
  ensures sat@c07s: ALLSAT
  ensures live@c07: ALIVE
fn Formula::assignWatched(clause)
  opt contract
fn Formula::potent(clause)
  opt contract
fn Formula::maxLit(clause)
  opt contract
fn Formula::analyzeConflict(clause, free)
  requires vars@c07: VARS0
  requires mdom@c07s: MDOM
  requires live@c07: alloc(clause) && ALIVE && (free ==> NOTIN(clause))
  requires sat@c07s by sat,live,kept,sound,made,fresh: ALLSAT && CSAT(clause)
  inv 0 made@c07: alloc(reason) && !old(alloc(reason))
  inv 0 kept@c07: forall p:Clause {p->ATOM_LIST.len} {p->ATOM_LIST.el} {alloc(p)} :: old(alloc(p)) ==> alloc(p) && p != reason && KEPT(p)
  inv 0 vals@c07: reason->ATOM_LIST.len == i
  inv 0 one@c07s: 0 <= MV(var) && MV(var) < i ==> reason->ATOM_LIST[MV(var)] == lit(var,MV(var),true)
  inv 0 vals2@c07: forall d {reason->ATOM_LIST[d]} {LV(var,d)} :: 0 <= d < i ==> reason->ATOM_LIST[d] == lit(var,d,true)
  ensures sat@c07s: ALLSAT
  ensures live@c07: ALIVE
  ensures grow@c07: NC >= old(NC) && (forall c {CLAUSELIST[c]} :: 0 <= c < old(NC) ==> CLAUSELIST[c] == old(CLAUSELIST[c]))
define SEARCH := MDOM && ALLSAT
define STRUCT := VARS0 && ALIVE
fn Formula::reduceTheory(var, equals, val)
  opt contract
fn Formula::watchedReduceTheory(lit)
  opt contract
fn Formula::undoTheory(level)
  opt contract
fn Formula::watchedUndoTheory(level)
  opt contract
fn Formula::NonChronoBacktrack(restarts)
  requires start@c07: STRUCT
  requires mstart@c07s: SEARCH
  inv 0 struct@c07: STRUCT
  inv 0 search@c07s: SEARCH
  ensures learned@c07s: ALLSAT
fn Formula::WatchedLiterals(restarts)
  requires start@c07: STRUCT
  requires mstart@c07s: SEARCH
  inv 0 struct@c07: STRUCT
  inv 0 search@c07s: SEARCH
  ensures learned@c07s: ALLSAT
