# C15: command-line options.  OPT(k): position k of the argument vector is an option (not the
# value of one).  LAST(a,n,s): the last option position below n holding the text numbered s, else -1.
function OPT(int): bool
function LAST(iarr,int,int): int
axiom last.none@c15: forall a:iarr,s {LAST(a,2,s)} :: LAST(a,2,s) == 0 - 1
axiom last.step@c15: forall a:iarr,k,s {LAST(a,k,s),OPT(k)} :: k >= 2 ==> LAST(a,k+1,s) == (OPT(k) && STRID(a[k]) == s ? k : LAST(a,k,s))
define MODE(argv,s) := STREQ(argv[1],s)
define GENVAL(argv,i) := STREQ(argv[i],"-var") || STREQ(argv[i],"-clause") || STREQ(argv[i],"-clausesize") || STREQ(argv[i],"-sat") || STREQ(argv[i],"-domain") || STREQ(argv[i],"-drand") || STREQ(argv[i],"-bool") || STREQ(argv[i],"-file")
define ENCVAL(argv,i) := STREQ(argv[i],"-file") || STREQ(argv[i],"-model")
define CHVAL(argv,i) := STREQ(argv[i],"-var") || STREQ(argv[i],"-clause") || STREQ(argv[i],"-clausesize") || STREQ(argv[i],"-file") || STREQ(argv[i],"-model") || STREQ(argv[i],"-time")
define NCVAL(argv,i) := STREQ(argv[i],"-restart") || STREQ(argv[i],"-restarts") || STREQ(argv[i],"-var") || STREQ(argv[i],"-clause") || STREQ(argv[i],"-clausesize") || STREQ(argv[i],"-file") || STREQ(argv[i],"-time")
define ENC(argv) := MODE(argv,"-b2f") || MODE(argv,"-linenc") || MODE(argv,"-quadenc")
define TAKES(argv,i) := (MODE(argv,"-genben") && GENVAL(argv,i)) || (ENC(argv) && ENCVAL(argv,i)) || (MODE(argv,"-solvech") && CHVAL(argv,i)) || (MODE(argv,"-solvenc") && NCVAL(argv,i))
define NUMOPT(argv,n,s,x,d) := x == (LAST(argv,n,STRNUM(s)) == 0 - 1 ? d : ATOI(argv[LAST(argv,n,STRNUM(s))+1]))
define BOOLOPT(argv,n,s,x,d) := x == (LAST(argv,n,STRNUM(s)) == 0 - 1 ? d : ATOI(argv[LAST(argv,n,STRNUM(s))+1]) != 0)
define STROPT(argv,n,s,x) := (LAST(argv,n,STRNUM(s)) == 0 - 1 && x == null) || (LAST(argv,n,STRNUM(s)) != 0 - 1 && x == argv[LAST(argv,n,STRNUM(s))+1])
define ON(argv,n,s) := LAST(argv,n,STRNUM(s)) != 0 - 1
define MAX2(a,b) := a > b ? a : b
define LASTHEUR(argv,n) := MAX2(LAST(argv,n,STRNUM("-vsids")),MAX2(LAST(argv,n,STRNUM("-vsids_pos")),LAST(argv,n,STRNUM("-lazy"))))
define HEUR(argv,n) := LASTHEUR(argv,n) == 0 - 1 ? (ON(argv,n,"-wl") ? VSIDS : BK)
      : (LASTHEUR(argv,n) == LAST(argv,n,STRNUM("-vsids")) ? VSIDS : (LASTHEUR(argv,n) == LAST(argv,n,STRNUM("-lazy")) ? lazy : VSIDS_pos))
define RST(argv,n) := MAX2(LAST(argv,n,STRNUM("-restart")),LAST(argv,n,STRNUM("-restarts")))
define NOFILES(c) := c->FILE == null && c->MODEL_FILE == null
define GENDEF(c) := c->NUM_VAR == 0-1 && c->NUM_CLAUSE == 0-1 && c->CLAUSE_SIZE == 3 && GENDEF2(c)
define GENDEF2(c) := c->SAT_UNSAT && c->DOMAIN_SIZE == 10 && !c->DRAND && !c->BOOL_FINITE
define SOLVEDEF(c) := c->TIME == 3600000 && c->RESTARTS == 0 && c->MODEL && !c->WATCH && c->heuristic == BK && !c->LOG
define SIZES(c,argv,n) := NUMOPT(argv,n,"-var",c->NUM_VAR,0-1) && NUMOPT(argv,n,"-clause",c->NUM_CLAUSE,0-1) && NUMOPT(argv,n,"-clausesize",c->CLAUSE_SIZE,3)
define GEN(c,argv,n) := NUMOPT(argv,n,"-var",c->NUM_VAR,0-1) && NUMOPT(argv,n,"-clause",c->NUM_CLAUSE,0-1) && NUMOPT(argv,n,"-clausesize",c->CLAUSE_SIZE,3)
      && BOOLOPT(argv,n,"-sat",c->SAT_UNSAT,true) && NUMOPT(argv,n,"-domain",c->DOMAIN_SIZE,10) && BOOLOPT(argv,n,"-drand",c->DRAND,false)
      && BOOLOPT(argv,n,"-bool",c->BOOL_FINITE,false) && STROPT(argv,n,"-file",c->FILE) && c->MODEL_FILE == null && SOLVEDEF(c)
define CONV(c,argv,n) := GENDEF(c) && SOLVEDEF(c) && STROPT(argv,n,"-file",c->FILE) && STROPT(argv,n,"-model",c->MODEL_FILE)
define CH(c,argv,n) := SIZES(c,argv,n) && GENDEF2(c) && STROPT(argv,n,"-model",c->MODEL_FILE) && STROPT(argv,n,"-file",c->FILE) && NUMOPT(argv,n,"-time",c->TIME,3600000) && (c->heuristic == (ON(argv,n,"-lazy") ? lazy : BK))
      && (c->LOG <==> ON(argv,n,"-verbose")) && !c->WATCH && c->RESTARTS == 0 && c->MODEL
define NCO(c,argv,n) := SIZES(c,argv,n) && GENDEF2(c) && c->MODEL_FILE == null && STROPT(argv,n,"-file",c->FILE) && NUMOPT(argv,n,"-time",c->TIME,3600000) && c->heuristic == HEUR(argv,n)
      && (c->LOG <==> ON(argv,n,"-verbose")) && (c->WATCH <==> ON(argv,n,"-wl")) && c->MODEL
      && c->RESTARTS == (RST(argv,n) == 0 - 1 ? 0 : ATOI(argv[RST(argv,n)+1]))
define POS(argc,n) := 2 <= n && n <= argc && OPT(n)
define RANGE(argv,n,s) := 0-1 <= LAST(argv,n,STRNUM(s)) < n
fn ParseCommandLine(cline, argc, argv)
  requires args@c15: argc >= 2 && OPT(2)
  requires alternate@c15: forall i {OPT(i),argv[i]} :: 2 <= i < argc && OPT(i) ==>
        (TAKES(argv,i) ? i+1 < argc && !OPT(i+1) && OPT(i+2) : OPT(i+1))
  inv 0 pos@c15: POS(argc,current)
  inv 0 gen@c15: GEN(cline,argv,current)
  inv 1 pos@c15: POS(argc,current)
  inv 1 conv@c15: CONV(cline,argv,current)
  inv 2 pos@c15: POS(argc,current)
  inv 2 conv@c15: CONV(cline,argv,current)
  inv 3 pos@c15: POS(argc,current)
  inv 3 conv@c15: CONV(cline,argv,current)
  inv 4 pos@c15: POS(argc,current)
  inv 4 ch@c15: CH(cline,argv,current)
  inv 5 pos@c15: POS(argc,current)
  inv 5 nc@c15: NCO(cline,argv,current)
  inv 5 rng@c15: RANGE(argv,current,"-vsids") && RANGE(argv,current,"-vsids_pos") && RANGE(argv,current,"-lazy") && RANGE(argv,current,"-restart") && RANGE(argv,current,"-restarts")
  ensures gen@c15: MODE(argv,"-genben") ==> GEN(cline,argv,argc)
  ensures conv@c15: ENC(argv) ==> CONV(cline,argv,argc)
  ensures ch@c15: MODE(argv,"-solvech") ==> CH(cline,argv,argc)
  ensures nc@c15: MODE(argv,"-solvenc") ==> NCO(cline,argv,argc)
  ensures other@c15: !(MODE(argv,"-genben") || ENC(argv) || MODE(argv,"-solvech") || MODE(argv,"-solvenc")) ==> GENDEF(cline) && SOLVEDEF(cline) && NOFILES(cline)
