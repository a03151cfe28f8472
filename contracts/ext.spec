# Extended DIMACS text: what the lines of a well-formed problem file say.
# WVAR, WEQ, WVAL: variable, sign and value of the literal that is word k of a text; LITW, ZEROW: word k is a literal, is 0.
function LITW(iarr, int, int): bool
function ZEROW(iarr, int, int): bool
function WVAR(iarr, int, int): int
function WEQ(iarr, int, int): bool
function WVAL(iarr, int, int): int
define FLW(f) := STRNUM(f)
# what sscanf reads from a word v=d, v!=d or 0
axiom scan3: forall B: iarr, s: iarr, n, p {SCANN(STRNUM("%d %c %d"),B,0), ISW(B,s,n,p)} :: ISW(B,s,n,p) ==>
     (LITW(s,n,CW(s,n,p)) ==> SCANN(STRNUM("%d %c %d"),B,0) == (WEQ(s,n,CW(s,n,p)) ? 3 : 2) && SCANI(STRNUM("%d %c %d"),0,B,0) == WVAR(s,n,CW(s,n,p))
        && SCANI(STRNUM("%d %c %d"),1,B,0) == (WEQ(s,n,CW(s,n,p)) ? 61 : 33) && (WEQ(s,n,CW(s,n,p)) ==> SCANI(STRNUM("%d %c %d"),2,B,0) == WVAL(s,n,CW(s,n,p))))
     && (ZEROW(s,n,CW(s,n,p)) ==> SCANN(STRNUM("%d %c %d"),B,0) == 1 && SCANI(STRNUM("%d %c %d"),0,B,0) == 0)
axiom scan4: forall B: iarr, s: iarr, n, p {SCANN(STRNUM("%d %c %c %d"),B,0), ISW(B,s,n,p)} :: ISW(B,s,n,p) ==>
     (LITW(s,n,CW(s,n,p)) && !WEQ(s,n,CW(s,n,p)) ==> SCANN(STRNUM("%d %c %c %d"),B,0) == 4 && SCANI(STRNUM("%d %c %c %d"),0,B,0) == WVAR(s,n,CW(s,n,p))
        && SCANI(STRNUM("%d %c %c %d"),1,B,0) == 33 && SCANI(STRNUM("%d %c %c %d"),2,B,0) == 61 && SCANI(STRNUM("%d %c %c %d"),3,B,0) == WVAL(s,n,CW(s,n,p)))
     && (ZEROW(s,n,CW(s,n,p)) ==> SCANN(STRNUM("%d %c %c %d"),B,0) == 1 && SCANI(STRNUM("%d %c %c %d"),0,B,0) == 0)
define XVAR(l,k) := WVAR(LC[l],LN[l],k)
define XEQ(l,k) := WEQ(LC[l],LN[l],k)
define XVAL(l,k) := WVAL(LC[l],LN[l],k)
# PL: the p line; FC: the first clause line; DM[v]: domain size of variable v; XN: number of variables
ghost PL: int
ghost FC: int
ghost DM: iarr
ghost XN: int
define XCL(C,N,l) := C[l][0] != 99 && C[l][0] != 112 && C[l][0] != 100 && NB(C[l],N[l],0) < N[l]
# NDLS, NCLX: domain lines and clause lines before line l
function NDLS(iarr2, int): int
function NCLX(iarr2, iarr, int): int
axiom ndls0: forall C: iarr2, l {NDLS(C,l)} :: NDLS(C,0) == 0 && (l >= 0 ==> NDLS(C,l) >= 0)
axiom ndls1: forall C: iarr2, l {NDLS(C,l), C[l]} :: l >= 0 ==> NDLS(C,l+1) == NDLS(C,l) + (C[l][0] == 100 ? 1 : 0)
axiom nclx0: forall C: iarr2, N: iarr, l {NCLX(C,N,l)} :: NCLX(C,N,0) == 0 && (l >= 0 ==> NCLX(C,N,l) >= 0)
axiom nclx1: forall C: iarr2, N: iarr, l {NCLX(C,N,l), C[l]} :: l >= 0 ==> NCLX(C,N,l+1) == NCLX(C,N,l) + (XCL(C,N,l) ? 1 : 0)
define ND(l) := NDLS(LC,l)
define NX(l) := NCLX(LC,LN,l)
define PSCAN(j) := SCANI(STRNUM("p %*s %d %d"),j,LC[PL],0)
define DSCAN(l,j) := SCANI(STRNUM("d %d %d"),j,LC[l],0)
define XHEAD := 0 <= PL && PL < FC && LC[PL][0] == 112 && (forall l {LC[l]} :: 0 <= l && l < NL && LC[l][0] == 112 ==> l == PL) && SCANN(STRNUM("p %*s %d %d"),LC[PL],0) == 2 && PSCAN(0) == XN && PSCAN(1) == NX(NL) && XN >= 1
define XDOMS := ND(FC) == XN && (forall v {DM[v]} :: DM[v] >= 1) && (forall l {LC[l]} :: 0 <= l && l < NL && LC[l][0] == 100 ==> PL < l && l < FC && SCANN(STRNUM("d %d %d"),LC[l],0) == 2 && DSCAN(l,0) == ND(l)+1 && ND(l) < XN && DM[ND(l)+1] == DSCAN(l,1))
define XFIRST := 0 <= FC && FC < NL && XCL(LC,LN,FC) && (forall l {LC[l]} :: 0 <= l && l < FC ==> !XCL(LC,LN,l))
define XWORDS := (forall l, k {XVAR(l,k)} :: 0 <= l && l < NL && XCL(LC,LN,l) && 0 <= k && k < NW(l)-1 ==> LITW(LC[l],LN[l],k) && 1 <= XVAR(l,k) && XVAR(l,k) <= XN && 0 <= XVAL(l,k) && XVAL(l,k) < DM[XVAR(l,k)]) && (forall l {LC[l]} :: 0 <= l && l < NL && XCL(LC,LN,l) ==> NW(l) >= 1 && ZEROW(LC[l],LN[l],NW(l)-1))
define EXTD := LINES && XHEAD && XDOMS && XFIRST
# markers: always true, they only name the things a statement is about
function MK1(int): bool
function MK2(int, int): bool
function MK3(int, int, int): bool
axiom mk1: forall v {MK1(v)} :: MK1(v)
axiom mk2: forall v, y {MK2(v,y)} :: MK2(v,y)
axiom mk3: forall v, p, q {MK3(v,p,q)} :: MK3(v,p,q)
group XTEXT
  text@ext: EXTD
  words@ext: XWORDS
