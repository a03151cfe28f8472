# The main program: which part of the system a command line reaches, and with which parameters.
# RAN: the part called (one call per run); 1 finite and 2 Boolean generator, 3 Boolean to finite,
# 4 linear and 5 quadratic encoding, 6 chronological and 7 clause-learning search.
ghost RAN: int
fn GenBenFin(cline)
  requires one@main: RAN == 0
  set RAN@main: 1
  ensures ran@main: RAN == 1
fn GenBenBool(cline)
  requires one@main: RAN == 0
  set RAN@main: 2
  ensures ran@main: RAN == 2
fn Boolean2Finite(cline)
  opt opaque
  requires one@main: RAN == 0
  ensures ran@main: RAN == 3
fn LinearEncode(cline)
  opt opaque
  requires one@main: RAN == 0
  ensures ran@main: RAN == 4
fn QuadraticEncode(cline)
  opt opaque
  requires one@main: RAN == 0
  ensures ran@main: RAN == 5
fn SolveFinite(cline, type)
  opt opaque
  requires one@main: RAN == 0
  requires kind@main: STREQ(type,"ch") || STREQ(type,"nc")
  ensures ran@main: RAN == (STREQ(type,"ch") ? 6 : 7)
define ATLEAST1(argv,argc,s,d) := (LAST(argv,argc,STRNUM(s)) == 0 - 1 ? d : ATOI(argv[LAST(argv,argc,STRNUM(s))+1])) >= 1
fn main(argc, argv)
  requires args@main: argc >= 2 && OPT(2) && RAN == 0 && !OPENED
  requires alternate@main: forall i {OPT(i),argv[i]} :: 2 <= i < argc && OPT(i) ==>
        (TAKES(argv,i) ? i+1 < argc && !OPT(i+1) && OPT(i+2) : OPT(i+1))
  requires par@main: MODE(argv,"-genben") ==> ATLEAST1(argv,argc,"-var",0-1) && ATLEAST1(argv,argc,"-clause",0-1) && ATLEAST1(argv,argc,"-clausesize",3) && ATLEAST1(argv,argc,"-domain",10)
  requires small@main: MODE(argv,"-genben") ==> (forall c, v :: NUMOPT(argv,argc,"-clausesize",c,3) && NUMOPT(argv,argc,"-var",v,0-1) ==> c <= v)
  ensures gen@main: MODE(argv,"-genben") ==> (forall b:bool :: BOOLOPT(argv,argc,"-bool",b,false) ==> RAN == (b ? 1 : 2))
  ensures b2f@main: MODE(argv,"-b2f") ==> RAN == 3
  ensures lin@main: MODE(argv,"-linenc") ==> RAN == 4
  ensures quad@main: MODE(argv,"-quadenc") ==> RAN == 5
  ensures ch@main: MODE(argv,"-solvech") ==> RAN == 6
  ensures nc@main: MODE(argv,"-solvenc") ==> RAN == 7
