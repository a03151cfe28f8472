# C13, C14: the generators.  The planted solution is SOLN (BSOLN).
define HEADT(nv,nc) := LLEN[0] == 4 && WRDT(0,0,WORD("p")) && WRDT(0,1,WORD("cnf")) && NUMT(0,2,nv) && NUMT(0,3,nc)
define DOMOF(x) := VARIABLES[x].VAL
define GVAR(y,x) := CLAUSE_LIST[y][x].VAR
define GVAL(y,x) := CLAUSE_LIST[y][x].VAL
# declaration lines, clause lines
define DLINE(x) := LLEN[x+1] == 3 && WRDT(x+1,0,WORD("d")) && NUMT(x+1,1,x+1) && NUMT(x+1,2,DOMOF(x))
define DLINES(n) := (forall x :: 0 <= x && x < n ==> DLINE(x))
define FLIT(l,y,x) := LITT(l,3*x,GVAR(y,x)+1,GVAL(y,x))
define FENDS(nv,n,cs) := (forall l {LLEN[l]} :: 1+nv <= l && l < 1+nv+n ==> LLEN[l] == 3*cs+1 && NUMT(l,3*cs,0))
define FLITS(nv,n,cs) := (forall y, x {GVAR(y,x)} :: 0 <= y && y < n && 0 <= x && x < cs ==> FLIT(1+nv+y,y,x))
# clauses: in range, of different variables, the first literal planted
define GOOD(y,x,nv) := 0 <= GVAR(y,x) && GVAR(y,x) < nv && 0 <= GVAL(y,x) && GVAL(y,x) < DOMOF(GVAR(y,x))
define GOODS(n,cs,nv) := (forall y, x {GVAR(y,x)} :: 0 <= y && y < n && 0 <= x && x < cs ==> GOOD(y,x,nv))
define GOOD1(y,n,nv) := (forall x {GVAR(y,x)} :: 0 <= x && x < n ==> GOOD(y,x,nv))
define DIFFS(n,cs) := (forall y, i, j {GVAR(y,i), GVAR(y,j)} :: 0 <= y && y < n && 0 <= i && i < j && j < cs ==> GVAR(y,i) != GVAR(y,j))
define DIFF1(y,n) := (forall i, j {GVAR(y,i), GVAR(y,j)} :: 0 <= i && i < j && j < n ==> GVAR(y,i) != GVAR(y,j))
define PLANTED(y) := GVAL(y,0) == SOLN[GVAR(y,0)].VAL
define PLANTS(n) := (forall y {GVAR(y,0)} :: 0 <= y && y < n ==> PLANTED(y))
fn GenBenFin(cline)
  requires par@gen: cline->NUM_VAR >= 1 && cline->NUM_CLAUSE >= 1 && 1 <= cline->CLAUSE_SIZE && cline->CLAUSE_SIZE <= cline->NUM_VAR && cline->DOMAIN_SIZE >= 1
  requires file@gen: !OPENED
  ensures head@gen: OPENED ==> HEADT(cline->NUM_VAR, cline->NUM_CLAUSE)
  ensures count@gen: OPENED ==> LINE == 1 + cline->NUM_VAR + cline->NUM_CLAUSE && CLEAN
  ensures doms@gen: OPENED ==> DLINES(cline->NUM_VAR)
  ensures dom1@gen: forall x :: 0 <= x && x < cline->NUM_VAR ==> DOMOF(x) >= 1
  ensures fixed@gen: !cline->DRAND ==> (forall x :: 0 <= x && x < cline->NUM_VAR ==> DOMOF(x) == cline->DOMAIN_SIZE)
  ensures ends@gen: OPENED ==> FENDS(cline->NUM_VAR, cline->NUM_CLAUSE, cline->CLAUSE_SIZE)
  ensures lits@gen: OPENED ==> FLITS(cline->NUM_VAR, cline->NUM_CLAUSE, cline->CLAUSE_SIZE)
  ensures good@gen: GOODS(cline->NUM_CLAUSE, cline->CLAUSE_SIZE, cline->NUM_VAR)
  ensures diff@gen: DIFFS(cline->NUM_CLAUSE, cline->CLAUSE_SIZE)
  ensures sol@gen: forall x :: 0 <= x && x < cline->NUM_VAR ==> 0 <= SOLN[x].VAL && SOLN[x].VAL < DOMOF(x)
  ensures sat@gen: cline->SAT_UNSAT ==> PLANTS(cline->NUM_CLAUSE)
  inv 0 lo: 0 <= y
  inv 0 len: forall k :: 0 <= k && k < y ==> CLAUSE_LIST[k].len == cline->CLAUSE_SIZE
  inv 1 dom: 0 <= x && (forall k :: 0 <= k && k < x ==> VARIABLES[k].VAR == k && DOMOF(k) == cline->DOMAIN_SIZE)
  inv 2 dom: 0 <= x && (forall k :: 0 <= k && k < x ==> VARIABLES[k].VAR == k && DOMOF(k) >= 1)
  inv 3 sol: 0 <= x && (forall k :: 0 <= k && k < x ==> SOLN[k].VAR == k && 0 <= SOLN[k].VAL && SOLN[k].VAL < DOMOF(k))
  inv 4 lo: 0 <= y
  inv 4 good: GOODS(y, cline->CLAUSE_SIZE, cline->NUM_VAR)
  inv 4 diff: DIFFS(y, cline->CLAUSE_SIZE)
  inv 4 sat: cline->SAT_UNSAT ==> PLANTS(y)
  inv 5 lo: 0 <= x
  inv 5 good: GOODS(y, cline->CLAUSE_SIZE, cline->NUM_VAR)
  inv 5 diff: DIFFS(y, cline->CLAUSE_SIZE)
  inv 5 sat: cline->SAT_UNSAT ==> PLANTS(y)
  inv 5 good1: GOOD1(y, x, cline->NUM_VAR)
  inv 5 diff1: DIFF1(y, x)
  inv 5 sat1: cline->SAT_UNSAT && x > 0 ==> PLANTED(y)
  inv 6 good: GOODS(y, cline->CLAUSE_SIZE, cline->NUM_VAR)
  inv 6 diff: DIFFS(y, cline->CLAUSE_SIZE)
  inv 6 sat: cline->SAT_UNSAT ==> PLANTS(y)
  inv 6 good1: GOOD1(y, x, cline->NUM_VAR)
  inv 6 diff1: DIFF1(y, x)
  inv 6 sat1: cline->SAT_UNSAT ==> PLANTED(y)
  inv 6 cur: 0 <= GVAR(y,x) && GVAR(y,x) < cline->NUM_VAR
  inv 7 good: GOODS(y, cline->CLAUSE_SIZE, cline->NUM_VAR)
  inv 7 diff: DIFFS(y, cline->CLAUSE_SIZE)
  inv 7 sat: cline->SAT_UNSAT ==> PLANTS(y)
  inv 7 good1: GOOD1(y, x, cline->NUM_VAR)
  inv 7 diff1: DIFF1(y, x)
  inv 7 sat1: cline->SAT_UNSAT ==> PLANTED(y)
  inv 7 cur: 0 <= z && z <= x && 0 <= GVAR(y,x) && GVAR(y,x) < cline->NUM_VAR
  inv 7 new: !already_exist ==> (forall k {GVAR(y,k)} :: 0 <= k && k < z ==> GVAR(y,x) != GVAR(y,k))
  inv 8 at: 0 <= y && y <= cline->NUM_VAR && LINE == 1 + y && CLEAN
  inv 8 head: HEADT(cline->NUM_VAR, cline->NUM_CLAUSE)
  inv 8 doms: DLINES(y)
  inv 9 at: 0 <= y && y <= cline->NUM_CLAUSE && LINE == 1 + cline->NUM_VAR + y && CLEAN
  inv 9 head: HEADT(cline->NUM_VAR, cline->NUM_CLAUSE)
  inv 9 doms: DLINES(cline->NUM_VAR)
  inv 9 ends: FENDS(cline->NUM_VAR, y, cline->CLAUSE_SIZE)
  inv 9 lits: FLITS(cline->NUM_VAR, y, cline->CLAUSE_SIZE)
  inv 10 at: 0 <= x && x <= cline->CLAUSE_SIZE && LINE == 1 + cline->NUM_VAR + y && POS == 3*x && LAST == 0
  inv 10 head: HEADT(cline->NUM_VAR, cline->NUM_CLAUSE)
  inv 10 doms: DLINES(cline->NUM_VAR)
  inv 10 ends: FENDS(cline->NUM_VAR, y, cline->CLAUSE_SIZE)
  inv 10 lits: FLITS(cline->NUM_VAR, y, cline->CLAUSE_SIZE)
  inv 10 cur: forall k {GVAR(y,k)} :: 0 <= k && k < x ==> FLIT(LINE,y,k)
# Boolean: the planted assignment is PLAN (BSOLN when the function ends)
ghost PLAN: iarr
define BLIT(v,nv) := v != 0 && 0-nv <= v && v <= nv
define BGOODS(B,n,cs,nv) := (forall y, x {B[y][x]} :: 0 <= y && y < n && 0 <= x && x < cs ==> BLIT(B[y][x],nv))
define BGOOD1(B,y,n,nv) := (forall x {B[y][x]} :: 0 <= x && x < n ==> BLIT(B[y][x],nv))
define BDIFFS(B,n,cs) := (forall y, i, j {B[y][i], B[y][j]} :: 0 <= y && y < n && 0 <= i && i < j && j < cs ==> B[y][i] != B[y][j])
define BDIFF1(B,y,n) := (forall i, j {B[y][i], B[y][j]} :: 0 <= i && i < j && j < n ==> B[y][i] != B[y][j])
define BPLAN(S,v) := v == S[v > 0 ? v : 0-v]
define BPLANTS(B,S,n) := (forall y {B[y][0]} :: 0 <= y && y < n ==> BPLAN(S,B[y][0]))
define BENDS(n,cs) := (forall l {LLEN[l]} :: 1 <= l && l < 1+n ==> LLEN[l] == cs+1 && NUMT(l,cs,0))
define BLITS(B,n,cs) := (forall l, x {TOK[l][x]} :: 1 <= l && l < 1+n && 0 <= x && x < cs ==> NUMT(l,x,B[l-1][x]))
define BSOL(S,nv) := (forall k {S[k]} :: 1 <= k && k <= nv ==> S[k] == k || S[k] == 0-k)
fn GenBenBool(cline)
  requires par@gen: cline->NUM_VAR >= 1 && cline->NUM_CLAUSE >= 1 && 1 <= cline->CLAUSE_SIZE && cline->CLAUSE_SIZE <= cline->NUM_VAR
  requires file@gen: !OPENED
  set 1 PLAN@gen: BSOLN.el
  ensures head@gen: OPENED ==> HEADT(cline->NUM_VAR, cline->NUM_CLAUSE)
  ensures count@gen: OPENED ==> LINE == 1 + cline->NUM_CLAUSE && CLEAN
  ensures ends@gen: OPENED ==> BENDS(cline->NUM_CLAUSE, cline->CLAUSE_SIZE)
  ensures lits@gen: OPENED ==> (forall l, x {TOK[l][x]} :: 1 <= l && l <= cline->NUM_CLAUSE && 0 <= x && x < cline->CLAUSE_SIZE ==> BLIT(TOK[l][x],cline->NUM_VAR) && KND[l][x] == 0)
  ensures diff@gen: OPENED ==> (forall l, i, j {TOK[l][i],TOK[l][j]} :: 1 <= l && l <= cline->NUM_CLAUSE && 0 <= i && i < j && j < cline->CLAUSE_SIZE ==> TOK[l][i] != TOK[l][j])
  ensures sol@gen: BSOL(PLAN,cline->NUM_VAR)
  ensures sat@gen: OPENED && cline->SAT_UNSAT ==> (forall l {TOK[l][0]} :: 1 <= l && l <= cline->NUM_CLAUSE ==> BPLAN(PLAN,TOK[l][0]))
  inv 0 lo: 0 <= y
  inv 0 len: forall k :: 0 <= k && k < y ==> BCLAUSE_LIST[k].len == cline->CLAUSE_SIZE
  inv 1 sol: 1 <= x && x <= cline->NUM_VAR + 1 && BSOL(BSOLN,x-1)
  inv 2 lo: 0 <= y
  inv 2 good: BGOODS(BCLAUSE_LIST, y, cline->CLAUSE_SIZE, cline->NUM_VAR)
  inv 2 diff: BDIFFS(BCLAUSE_LIST, y, cline->CLAUSE_SIZE)
  inv 2 sat: cline->SAT_UNSAT ==> BPLANTS(BCLAUSE_LIST,BSOLN,y)
  inv 3 lo: 0 <= x
  inv 3 good: BGOODS(BCLAUSE_LIST, y, cline->CLAUSE_SIZE, cline->NUM_VAR)
  inv 3 diff: BDIFFS(BCLAUSE_LIST, y, cline->CLAUSE_SIZE)
  inv 3 sat: cline->SAT_UNSAT ==> BPLANTS(BCLAUSE_LIST,BSOLN,y)
  inv 3 good1: BGOOD1(BCLAUSE_LIST, y, x, cline->NUM_VAR)
  inv 3 diff1: BDIFF1(BCLAUSE_LIST, y, x)
  inv 3 sat1: cline->SAT_UNSAT && x > 0 ==> BPLAN(BSOLN,BCLAUSE_LIST[y][0])
  inv 4 good: BGOODS(BCLAUSE_LIST, y, cline->CLAUSE_SIZE, cline->NUM_VAR)
  inv 4 diff: BDIFFS(BCLAUSE_LIST, y, cline->CLAUSE_SIZE)
  inv 4 sat: cline->SAT_UNSAT ==> BPLANTS(BCLAUSE_LIST,BSOLN,y)
  inv 4 good1: BGOOD1(BCLAUSE_LIST, y, x+1, cline->NUM_VAR)
  inv 4 diff1: BDIFF1(BCLAUSE_LIST, y, x)
  inv 4 sat1: cline->SAT_UNSAT ==> BPLAN(BSOLN,BCLAUSE_LIST[y][0])
  inv 5 good: BGOODS(BCLAUSE_LIST, y, cline->CLAUSE_SIZE, cline->NUM_VAR)
  inv 5 diff: BDIFFS(BCLAUSE_LIST, y, cline->CLAUSE_SIZE)
  inv 5 sat: cline->SAT_UNSAT ==> BPLANTS(BCLAUSE_LIST,BSOLN,y)
  inv 5 good1: BGOOD1(BCLAUSE_LIST, y, x+1, cline->NUM_VAR)
  inv 5 diff1: BDIFF1(BCLAUSE_LIST, y, x)
  inv 5 sat1: cline->SAT_UNSAT ==> BPLAN(BSOLN,BCLAUSE_LIST[y][0])
  inv 5 cur: 0 <= z && z <= x
  inv 5 new: !already_exist ==> (forall k {BCLAUSE_LIST[y][k]} :: 0 <= k && k < z ==> BCLAUSE_LIST[y][x] != BCLAUSE_LIST[y][k])
  inv 6 at: 0 <= y && y <= cline->NUM_CLAUSE && LINE == 1 + y && CLEAN
  inv 6 head: HEADT(cline->NUM_VAR, cline->NUM_CLAUSE)
  inv 6 ends: BENDS(y, cline->CLAUSE_SIZE)
  inv 6 lits: BLITS(BCLAUSE_LIST, y, cline->CLAUSE_SIZE)
  inv 7 at: 0 <= x && x <= cline->CLAUSE_SIZE && LINE == 1 + y && POS == x && LAST == 0
  inv 7 head: HEADT(cline->NUM_VAR, cline->NUM_CLAUSE)
  inv 7 ends: BENDS(y, cline->CLAUSE_SIZE)
  inv 7 lits: BLITS(BCLAUSE_LIST, y, cline->CLAUSE_SIZE)
  inv 7 cur: forall k {TOK[LINE][k]} :: 0 <= k && k < x ==> NUMT(LINE,k,BCLAUSE_LIST[y][k])
