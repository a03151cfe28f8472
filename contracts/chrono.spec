# C05: the chronological search.  A result 2 means that no assignment agreeing with the cells at entry
# satisfies the clauses, and that exactly the cells below the level are left; a result 0 that every clause is satisfied.
group CHINV
  heur: heuristic == BK || heuristic == lazy
  mv@agr by mv: MDOM && ALLSAT
  *WF
  *CSTATE
  *LSTATE
  *PC
define CHKEEP(v,d) := A(v,d) == old(A(v,d)) && LV(v,d) == old(LV(v,d))
define CHOPEN(v,d) := A(v,d) == 0 && LV(v,d) == -10
define READY := forall c {CLAUSELIST[c]} :: INRANGE(c) && CLV(c) == -1 ==> NUM(c) >= 2
fn Formula::ChronoBacktrack(level)
  requires lvl@ch: level >= 0 && LEVEL == level
  requires *CHINV @ch
  ensures *CSTATE @ch
  ensures three@ch: result == 0 || result == 1 || result == 2
  ensures agr@agr: result == 2 ==> !old(AGR(level))
  ensures back@ch: result == 2 ==> LEVEL == level - 1 && !CONFLICT && UNITLIST.lo == UNITLIST.hi
  ensures cell@ch: result == 2 ==> (forall v, d {A(v,d)} {LV(v,d)} :: CELL(v,d) ==> (old(LV(v,d)) > level - 1 ? CHOPEN(v,d) : CHKEEP(v,d)))
  ensures clev@ch: result == 2 ==> (forall c {CLAUSELIST[c]} :: INRANGE(c) ==> CLV(c) <= level - 1)
  ensures vall@ch: result == 2 ==> (forall v, d {A(v,d)} {LV(v,d)} :: CELL(v,d) && VALOF(v) != -1 ==> A(v,d) != 0)
  ensures ready@ch: result == 2 && level >= 1 ==> READY
  ensures pc@ch: result == 2 ==> PCALL
  ensures sat@sat: result == 0 ==> (forall c {CLAUSELIST[c]} :: INRANGE(c) ==> (exists k {AT(c,k)} :: 0 <= k && k < SZ(c) && istrue(AT(c,k))))
