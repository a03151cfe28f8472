# Counting: occurrences of a clause number in a record list, of a literal in a clause, and the
# number of literals of a clause that are open once everything above level L in the cells before (i,j) is undone.
function UNF(int): bool
function NOC(iarr,int,int): int
function NOCL(larr,int,lit): int
function CNTP(larr,int,iarr,iarr2,iarr2,int,int,int): int
define WM(a,VL,AS,LV,L,i,j) := AS[VL[a.VAR]][a.VAL] == 0 || (LV[VL[a.VAR]][a.VAL] > L && (a.VAR < i || (a.VAR == i && a.VAL < j)))
define NEGL(t) := lit(t.VAR,t.VAL,!t.EQUAL)
# definitions (by recursion on the length of the prefix)
axiom noc0: forall el:iarr, n, x {NOC(el,n,x)} :: n <= 0 ==> NOC(el,n,x) == 0
axiom noc1: forall el:iarr, n, x {NOC(el,n,x), el[n]} :: n >= 0 ==> NOC(el,n+1,x) == NOC(el,n,x) + (el[n] == x ? 1 : 0)
axiom def.noc: forall el:iarr, n, x {NOC(el,n,x), UNF(n)} :: n > 0 ==> NOC(el,n,x) == NOC(el,n-1,x) + (el[n-1] == x ? 1 : 0)
axiom nocl0: forall el:larr, n; t:lit {NOCL(el,n,t)} :: n <= 0 ==> NOCL(el,n,t) == 0
axiom nocl1: forall el:larr, n; t:lit {NOCL(el,n,t), el[n]} :: n >= 0 ==> NOCL(el,n+1,t) == NOCL(el,n,t) + (el[n] == t ? 1 : 0)
axiom def.nocl: forall el:larr, n; t:lit {NOCL(el,n,t), UNF(n)} :: n > 0 ==> NOCL(el,n,t) == NOCL(el,n-1,t) + (el[n-1] == t ? 1 : 0)
axiom cnt0: forall el:larr, n; VL:iarr, AS:iarr2, LV:iarr2, L, i, j {CNTP(el,n,VL,AS,LV,L,i,j)} :: n <= 0 ==> CNTP(el,n,VL,AS,LV,L,i,j) == 0
axiom cnt1: forall el:larr, n; VL:iarr, AS:iarr2, LV:iarr2, L, i, j {CNTP(el,n,VL,AS,LV,L,i,j), el[n]} :: n >= 0 ==>
     CNTP(el,n+1,VL,AS,LV,L,i,j) == CNTP(el,n,VL,AS,LV,L,i,j) + (WM(el[n],VL,AS,LV,L,i,j) ? 1 : 0)
axiom def.cnt: forall el:larr, n; VL:iarr, AS:iarr2, LV:iarr2, L, i, j {CNTP(el,n,VL,AS,LV,L,i,j), UNF(n)} :: n > 0 ==>
     CNTP(el,n,VL,AS,LV,L,i,j) == CNTP(el,n-1,VL,AS,LV,L,i,j) + (WM(el[n-1],VL,AS,LV,L,i,j) ? 1 : 0)
# lemmas
lemma nocnn by def.noc,noc0 induct n: forall el:iarr, n, x {NOC(el,n,x)} :: NOC(el,n,x) >= 0
lemma nocin by def.noc,noc0,nocnn induct n: forall el:iarr, n, x, m {NOC(el,n,x), el[m]} :: 0 <= m < n && el[m] == x ==> NOC(el,n,x) >= 1
lemma nocex by def.noc,noc0,nocnn induct n: forall el:iarr, n, x {NOC(el,n,x)} :: NOC(el,n,x) >= 1 ==> (exists m {el[m]} :: 0 <= m < n && el[m] == x)
lemma nocst by def.noc,noc0 induct n: forall el:iarr, n, x, m, y {NOC(store(el,m,y),n,x)} :: n <= m ==> NOC(store(el,m,y),n,x) == NOC(el,n,x)
lemma noclnn by def.nocl,nocl0 induct n: forall el:larr, n; t:lit {NOCL(el,n,t)} :: 0 <= NOCL(el,n,t) && (n >= 0 ==> NOCL(el,n,t) <= n)
lemma noclin by def.nocl,nocl0,noclnn induct n: forall el:larr, n; t:lit; m:int {NOCL(el,n,t), el[m]} :: 0 <= m < n && el[m] == t ==> NOCL(el,n,t) >= 1
lemma noclex by def.nocl,nocl0,noclnn induct n: forall el:larr, n; t:lit {NOCL(el,n,t)} :: NOCL(el,n,t) >= 1 ==> (exists m {el[m]} :: 0 <= m < n && el[m] == t)
lemma cntnn by def.cnt,cnt0 induct n: forall el:larr, n; VL:iarr, AS:iarr2, LV:iarr2, L, i, j {CNTP(el,n,VL,AS,LV,L,i,j)} :: 0 <= CNTP(el,n,VL,AS,LV,L,i,j) && (n >= 0 ==> CNTP(el,n,VL,AS,LV,L,i,j) <= n)
lemma cntin by def.cnt,cnt0,cntnn induct n: forall el:larr, n; VL:iarr, AS:iarr2, LV:iarr2, L, i, j, m {CNTP(el,n,VL,AS,LV,L,i,j), el[m]} ::
     0 <= m < n && WM(el[m],VL,AS,LV,L,i,j) ==> CNTP(el,n,VL,AS,LV,L,i,j) >= 1
lemma cntex by def.cnt,cnt0,cntnn induct n: forall el:larr, n; VL:iarr, AS:iarr2, LV:iarr2, L, i, j {CNTP(el,n,VL,AS,LV,L,i,j)} ::
     CNTP(el,n,VL,AS,LV,L,i,j) >= 1 ==> (exists m {el[m]} :: 0 <= m < n && WM(el[m],VL,AS,LV,L,i,j))
lemma cntin2 by def.cnt,cnt0,cntnn,cntin induct n: forall el:larr, n; VL:iarr, AS:iarr2, LV:iarr2, L, i, j, m, q {CNTP(el,n,VL,AS,LV,L,i,j), el[m], el[q]} ::
     0 <= m < n && 0 <= q < n && m != q && WM(el[m],VL,AS,LV,L,i,j) && WM(el[q],VL,AS,LV,L,i,j) ==> CNTP(el,n,VL,AS,LV,L,i,j) >= 2
lemma cntex2 by def.cnt,cnt0,cntnn,cntex induct n: forall el:larr, n; VL:iarr, AS:iarr2, LV:iarr2, L, i, j {CNTP(el,n,VL,AS,LV,L,i,j)} ::
     CNTP(el,n,VL,AS,LV,L,i,j) >= 2 ==> (exists m, q {el[m],el[q]} :: 0 <= m < q && q < n && WM(el[m],VL,AS,LV,L,i,j) && WM(el[q],VL,AS,LV,L,i,j))
lemma cntext by def.cnt,cnt0 induct n: forall el:larr, n; VL:iarr, AS:iarr2, LV:iarr2, L, i, j; AT:iarr2, LW:iarr2, M, p, q {CNTP(el,n,VL,AS,LV,L,i,j), CNTP(el,n,VL,AT,LW,M,p,q)} ::
     (forall k {el[k]} :: 0 <= k < n ==> (WM(el[k],VL,AS,LV,L,i,j) <==> WM(el[k],VL,AT,LW,M,p,q))) ==> CNTP(el,n,VL,AS,LV,L,i,j) == CNTP(el,n,VL,AT,LW,M,p,q)
lemma cntdiff by def.cnt,def.nocl,cnt0,nocl0 induct n: forall el:larr, n; VL:iarr, AS:iarr2, LV:iarr2, L, i, j; AT:iarr2, LW:iarr2, M, p, q; t:lit
     {CNTP(el,n,VL,AS,LV,L,i,j), CNTP(el,n,VL,AT,LW,M,p,q), NOCL(el,n,t)} ::
     (forall k {el[k]} :: 0 <= k < n ==> ((el[k].VAR == t.VAR && el[k].VAL == t.VAL) ? (WM(el[k],VL,AS,LV,L,i,j) && !WM(el[k],VL,AT,LW,M,p,q))
        : (WM(el[k],VL,AS,LV,L,i,j) <==> WM(el[k],VL,AT,LW,M,p,q)))) ==>
     CNTP(el,n,VL,AS,LV,L,i,j) == CNTP(el,n,VL,AT,LW,M,p,q) + NOCL(el,n,t) + NOCL(el,n,NEGL(t))
lemma nocpush by noc1,nocst,noc0: forall el:iarr, n, m, y, x {NOC(store(el,n,y),m,x)} :: m == n + 1 && n >= 0 ==>
     NOC(store(el,n,y),n,x) == NOC(el,n,x) && store(el,n,y)[n] == y && NOC(store(el,n,y),m,x) == NOC(store(el,n,y),n,x) + (y == x ? 1 : 0)
