#!/usr/bin/env python3
# writes /verif/properties.jsonl (edit here, then run)
import json
P=[]
def prop(id,title,statement,over,qtext,why,files,mech,observe,state=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,
                   state=[dict(name=n,meaning=m,where=w) for n,m,w in (state or [])],hook_needed=None)))
F='src/Formula.cc'
ANS="The repository's tests compare printed answers on a few dozen fixed benchmark files."
prop('C01','UNSAT answers of the non-chronological solver are correct',
 'When -solvenc (without -wl) reports UNSAT for a well-formed extended-DIMACS problem, no assignment of domain values to the variables satisfies all its clauses. This holds for every decision heuristic and every restart setting.',
 ['inputs','configurations'],'every well-formed problem, heuristic (default, -vsids, -vsids_pos, -lazy), restart threshold, and number of conflicts',
 ANS+' A wrong resolution, counter or backjump needs a particular conflict history to surface as a wrong UNSAT.',
 [F,'src/SolveFinite.cc','src/Clause.cc'],
 [('clause learning by extended resolution',F+': analyzeConflict, resolve'),('clause counters',F+': satisfyClauses, removeLiteral, addLiteral, unsatisfyClauses'),('conflict at level 0',F+': NonChronoBacktrack')],
 ['printed UNSAT'],[('NumUnAss / LEVEL','number of open literals / level at which a clause was satisfied','src/Clause.h'),('CLAUSEID','reason of an assignment','src/Variable.h')])
prop('C02','SAT answers of the non-chronological solver come with a satisfying assignment',
 'When -solvenc (without -wl) reports SAT for a well-formed problem, the assignment it holds satisfies every clause of the input, whatever completion is chosen for variables left open by the -lazy heuristic.',
 ['inputs','configurations'],'every well-formed problem, heuristic and restart threshold',
 ANS+' A clause lost by a counter error after backjumping is only visible on inputs whose search passes through that history.',
 [F,'src/SolveFinite.cc'],[('satisfied-clause bookkeeping',F+': satisfyClauses, unsatisfyClauses, undoTheory'),('decision only while something is unassigned',F+': chooseLiteral, lazyChooseLiteral')],['printed SAT and model'])
prop('C03','UNSAT answers of the watched-literal solver are correct',
 'When -solvenc -wl reports UNSAT for a well-formed problem, the problem has no satisfying assignment, for every heuristic and restart setting.',
 ['inputs','configurations'],'every well-formed problem, heuristic (-vsids, -vsids_pos, -lazy) and restart threshold',
 ANS+' Units and conflicts are derived from two watched literals per clause; a stale watch gives a wrong unit only after specific assignment orders.',
 [F,'src/Variable.cc'],[('watch lists',F+': watchedFalsifyLiteral, SwapPointer; src/Variable.cc: addRecord, removeRecord'),('conflict analysis',F+': analyzeConflict, assignWatched, resolve')],['printed UNSAT'])
prop('C04','SAT answers of the watched-literal solver come with a satisfying assignment',
 'When -solvenc -wl reports SAT for a well-formed problem, the assignment it holds satisfies every clause of the input, whatever completion is chosen for variables left open by -lazy.',
 ['inputs','configurations'],'every well-formed problem, heuristic and restart threshold',
 ANS+' A clause that silently loses its watches is unnoticed until some later assignment falsifies it.',
 [F,'src/Variable.cc'],[('watch lists',F+': watchedFalsifyLiteral, SwapPointer'),('undo',F+': watchedUndoTheory')],['printed SAT and model'])
prop('C05','Answers of the chronological solver are correct',
 'When -solvech reports UNSAT for a well-formed problem, no assignment satisfies it; when it reports SAT, the assignment it holds satisfies every clause.',
 ['inputs','configurations'],'every well-formed problem, with the default and the -lazy heuristic',
 ANS+' The exhaustive branching is only checked where a benchmark happens to need both branches.',
 [F],[('branch, then its negation',F+': ChronoBacktrack'),('undo one level',F+': undoTheory')],['printed SAT / UNSAT'])
prop('C06','The model verdict CORRECT means every clause is satisfied',
 'After a SAT answer the solver prints "model is CORRECT" if and only if every clause it holds contains a literal made true by its assignment; otherwise it prints "model is INCORRECT".',
 ['inputs'],'every clause list and every (possibly partial) assignment',
 'The tests only ever see CORRECT; no test holds a falsified or open clause when the check runs.',
 [F,'src/SolveFinite.cc'],[('model check',F+': verifyModel'),('verdict printing','src/SolveFinite.cc: SolveFinite')],['printed verdict'])
prop('C07','Every learned clause is a consequence of the input',
 'Every clause the non-chronological solvers add during search is implied by the input clauses together with the finite domains: each assignment satisfying the input satisfies the learned clause.',
 ['inputs','histories'],'every problem and every conflict reached in any search',
 'Tests look at final answers only; an unsound learned clause often does not change the answer of a benchmark.',
 [F],[('extended resolution',F+': resolve, falsifies, hasAtom'),('reasons of decisions and entailments',F+': analyzeConflict')],['clauses added during search (-verbose prints them)'])
prop('C08','Backtracking restores exactly the earlier state',
 'Undoing the search to a level leaves exactly the assignments made at that level or below, a trail holding only them in order, and for every clause bookkeeping that agrees with those assignments.',
 ['inputs','histories'],'every reachable search state and every target level, with both bookkeeping schemes',
 'A benchmark passes through few undo patterns; a counter that drifts by one is masked by later propagation.',
 [F],[('undo with counters',F+': undoTheory, addLiteral, unsatisfyClauses'),('undo with watches',F+': watchedUndoTheory')],['search state after each backtrack; final answers'])
prop('C09','The problem solved is the problem in the file',
 'Reading a well-formed extended-DIMACS file gives exactly its variables with their domain sizes and exactly its clauses, each with the literals of its line (repeated ones once); comments and blank lines add nothing, and a single-valued variable takes its value.',
 ['inputs'],'every well-formed file: any number and length of lines, any spacing with blanks and tabs, repeated literals, empty clauses, single-valued domains',
 'The benchmark files all come from a few generators with one layout.',
 [F],[('line and token reader',F+': BuildFormula')],['the clause list, occurrence or watch lists and unit list after reading'])
prop('C10','Linear encoding is equisatisfiable and has a correct header',
 'The DIMACS file written by -linenc for a well-formed problem with at least one clause is satisfiable exactly when the problem is: its assignments, restricted to the variables standing for "variable = value", are the satisfying assignments of the problem. Its header states the numbers of variables and clauses it uses.',
 ['inputs'],'every well-formed problem: all domain sizes, = and != literals',
 'One conversion of one file is run, and its output is not compared with anything.',
 ['src/LinearEncode.cc'],[('clause emission and variable numbering','src/LinearEncode.cc: LinearEncode')],['output file'])
prop('C11','Quadratic encoding is equisatisfiable and has a correct header',
 'The clauses written by -quadenc (at least one value, no two values, the translated clauses) are satisfied exactly by the assignments representing solutions of the problem (well-formed, with at least one clause), and the header states the number of variables and clauses written.',
 ['inputs'],'every well-formed problem: all domain sizes, = and != literals',
 'One conversion of one file is run, and its output is not compared with anything.',
 ['src/QuadraticEncode.cc'],[('clause emission','src/QuadraticEncode.cc: QuadraticEncode')],['output file'])
prop('C12','Boolean-to-finite conversion preserves the problem',
 'The file written by -b2f for a DIMACS problem declares every variable 1..N with two values and holds, in order, one clause per input clause in which literal v became v=1 and -v became v=0, each ended by 0; so it is satisfiable exactly when the input is.',
 ['inputs'],'every DIMACS file, including variables without occurrences',
 'One conversion of one file is run, and its output is not compared with anything.',
 ['src/Boolean2Finite.cc'],[('translation','src/Boolean2Finite.cc: Boolean2Finite')],['output file'])
prop('C13','Generated finite-domain benchmarks are well-formed and satisfiable on request',
 'For every random seed, -genben -bool 1 writes a problem with the requested numbers of variables, clauses and literals per clause, every value inside its variable\'s domain; with -sat 1 (the default) the problem is satisfiable.',
 ['inputs','configurations'],'every parameter setting (positive counts, clause size at most the number of variables) and every sequence of random numbers',
 'The generator is seeded by the clock; the test looks at one output of one small setting, at most.',
 ['src/GenBenFunc.cc'],[('planted solution','src/GenBenFunc.cc: GenBenFin')],['output file'])
prop('C14','Generated Boolean benchmarks are well-formed and satisfiable on request',
 'For every random seed, -genben -bool 0 writes a DIMACS problem with the requested numbers of variables, clauses and literals per clause, the literals of a clause different and over existing variables; with -sat 1 (the default) the problem is satisfiable.',
 ['inputs','configurations'],'every parameter setting (positive counts, clause size at most the number of variables) and every sequence of random numbers',
 'The generator is seeded by the clock; the test does not look at the clauses.',
 ['src/GenBenFunc.cc'],[('planted solution','src/GenBenFunc.cc: GenBenBool')],['output file'])
prop('C15','Command-line options take effect as documented',
 'Each documented option sets its setting to the value given after it, settings not named keep their documented defaults, and the order of options does not matter unless one is repeated; -wl without a heuristic option selects VSIDS; the first argument selects the part of the program that is run (-bool the generator).',
 ['inputs','configurations'],'every argument vector made of documented options and their values, in any order and number',
 'The tests use a handful of fixed option lists.',
 ['src/Global.cc'],[('option parser','src/Global.cc: ParseCommandLine')],['settings used by the run'])
prop('C16','TIMEOUT is reported only when the time limit has passed',
 'A solver reports TIMEOUT only if more than the allowed number of seconds has passed since solving started; the verdict printed (SAT, UNSAT or TIMEOUT) is the one the search returned.',
 ['inputs','configurations'],'every problem, every time limit and every clock reading',
 'No test comes near its time limit, or sets one.',
 [F,'src/SolveFinite.cc'],[('time check',F+': NonChronoBacktrack, WatchedLiterals, ChronoBacktrack'),('verdict','src/SolveFinite.cc: SolveFinite')],['printed verdict'])
prop('C17','Answers of the bit-vector solver are correct',
 'The bit-vector variant of the solver reports UNSAT only for problems without satisfying assignment, and SAT only when every way of picking values from the domains it is left with satisfies every clause.',
 ['inputs','configurations'],'every well-formed problem with domains of at most 64 values, every heuristic and restart threshold',
 'The repository has no test of this variant at all.',
 ['bitvec/Formula.cc','bitvec/Variable.cc','bitvec/Clause.cc','bitvec/Literal.h'],[('domain sets and watches','bitvec/Formula.cc: watchedReduceTheory, watchedUpdateVar, SwapPointer'),('conflict analysis','bitvec/Formula.cc: analyzeConflict, resolve, assignWatched')],['printed verdict and domains'])
prop('C18','A decision is always an open literal, and none is missed',
 'Each decision heuristic returns a literal over an existing variable and value that is not assigned yet, and reports that nothing is left only when every value it is responsible for is assigned.',
 ['inputs','histories'],'every assignment state and every score table',
 'A heuristic that skips an open literal in rare score constellations still solves the benchmarks.',
 [F],[('heuristics',F+': chooseLiteral, chooseLiteralVSIDS, chooseLiteralVSIDS_allPos, lazyChooseLiteral, lazyWatchedChooseLiteral')],['decisions printed by -verbose'])
prop('C19','Search never touches memory it does not own',
 'On well-formed problems every access to variables, values, clauses, trail entries and watch records during search is inside its container and to a live object, whatever the search history.',
 ['inputs','histories'],'every well-formed problem and every configuration of the solvers in src',
 'Out-of-range reads on rare conflict patterns do not fail a test unless they crash.',
 [F,'src/Variable.cc','src/Clause.cc'],[('index and object discipline',F+': all search functions')],['process memory'])
prop('C20','The printed model gives each variable at most one value',
 'The model printed after SAT names every variable at most once, with a value of its domain that is the value assigned to it; without -lazy it names every variable exactly once.',
 ['inputs','configurations'],'every well-formed problem and configuration',
 'No test reads the printed model.',
 [F],[('trail printing',F+': PrintModel'),('entailed value',F+': checkEntail, reduceTheory, watchedReduceTheory')],['printed model'])
prop('C21','Search terminates',
 'Without a time limit every solver run ends with SAT or UNSAT on every well-formed problem.',
 ['inputs','configurations'],'every well-formed problem',
 'Termination of learning with restarts is a whole-history argument.',
 [F],[('learning',F+': NonChronoBacktrack, WatchedLiterals')],['process exit'])
with open('/verif/properties.jsonl','w') as f:
    for p in P: f.write(json.dumps(p)+'\n')
print(len(P))
