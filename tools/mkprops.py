"""writes /verif/properties.jsonl (source of the property list)"""
import json
R="Radau5-NG/include/Radau5cc.hpp"; RO="Rodas-NG/include/Rodascc.hpp"; M="common/include/Matrices.hpp"
HS="common/include/Hessenberg.hpp"; FV="common/include/fortranVector.hpp"; R4="Rock4-NG/include/Rock4.hpp"
TO="Rock4-NG/include/ToolOMP.hpp"; RL="Rock4-L/include/Rock4L.hpp"; SD="SDIRKL/include/Sdirkl.hpp"
SY="SymplecticRK/include/SymplecticRK.hpp"; GM="SymplecticRK/include/GaussianMethod.hpp"; FT="SymplecticRK/include/Ftest.hpp"
EX="SymplecticRK/include/Extrap.hpp"; LG="common/include/logger.hpp"
P=[]
def p(id,title,st,over,qt,why,files,mech):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=qt),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech])))
p("C01","Vector operations compute exactly their documented formula",
 "Every vector operation offered by the library (copy, fill, sum, scaled sum, linear combination, addition in place, export to a user array, address exchange) leaves in its destination, at every position, exactly the documented combination of the values its operands had on entry. It holds for every length and also when the destination is one of the operands, and no other memory is changed.",
 ["inputs"],"all vector lengths n>=1, all coefficients and contents, all admissible operand/destination coincidences",
 "The example programs use four fixed sizes and never look at a single vector operation; a wrong element at a boundary, an untouched operand or an aliased destination only shifts trajectories the smoke tests do not compare.",
 [FV],[("elementwise loops of the vector classes",FV)])
p("C02","Matrix containers map each (row,column) to its own LAPACK cell",
 "In the full, banded, complex full and complex banded matrix containers every entry inside the declared structure is stored in its own cell, at the position the LAPACK column-major or general-band layout prescribes, so that writing one entry changes no other entry. Negating a matrix and shifting its diagonal act on exactly the entries of the structure.",
 ["inputs","configurations"],"all orders n, all bandwidths kl,ku with 0<=kl,ku<n, all (i,j) in the band",
 "The tests instantiate one banded shape per example and only see the end result of integrations.",
 ["common/include/fortranArray.hpp","common/include/fortranComplexArray.hpp","common/include/fortranRectangularArray.hpp","common/include/fortranRectangularComplexArray.hpp"],
 [("index arithmetic of the four containers","common/include/fortran*Array.hpp")])
p("C03","Full and banded Newton matrices are exactly shift times identity minus J",
 "For full and banded Jacobians the matrix handed to LAPACK is exactly (shift)I-J, real or complex as requested, in the layout and with the dimensions LAPACK expects, and the solution returned is LAPACK's solution for exactly the given right hand side (both real and imaginary parts). The Jacobian itself is left unchanged, and a failing factorisation or solve raises the library's exception instead of returning a result.",
 ["inputs","configurations"],"all n, bandwidths, Jacobian contents, real and complex shifts, right hand sides, LAPACK return codes",
 "The tests use a handful of Jacobians; a wrong band limit, shift part or interleaving only slows Newton down, and no test makes LAPACK fail.",
 [M],[("factorisation and solve wrappers",M)])
p("C04","Hessenberg option solves the same linear systems as the full option",
 "With the Hessenberg option each real or complex linear solve returns the solution of ((shift)I-J)x=b for the same Jacobian that was supplied, for every order and every pivoting pattern, including a matrix supplied anew or re-shifted several times. A singular shifted matrix raises the library's exception.",
 ["inputs","histories"],"all orders n>=1, Jacobians, shifts, right hand sides, sequences of re-factorisations of one Jacobian",
 "No stable test enables the Hessenberg option on a system where pivoting or re-shifting matters, and none compares a solve against the system it solves.",
 [M,HS],[("Hessenberg elimination with pivoting",HS),("orthogonal transformation of right hand sides",HS),("reduction once per Jacobian",M)])
p("C05","Numerical Jacobian is the column-wise difference quotient in the structure",
 "When the Jacobian is computed numerically, column j inside the declared structure is the one-sided difference quotient of the right hand side with only component j perturbed, at the current time, by an increment sqrt(1e-16*max(1e-5,|y_j|)). The current solution is unchanged afterwards and nothing outside the structure is written.",
 ["inputs","configurations"],"all n, bandwidths, times, states (any sign), right hand sides",
 "Example states are positive and examples with numerical Jacobians only check that integration ends.",
 [R,RO],[("difference-quotient Jacobian",R),("difference-quotient Jacobian",RO)])
p("C06","Error tolerances given by the user are the ones applied, component by component",
 "With the scalar policy the single absolute and relative tolerance given applies to every component; with the vector policy component i uses the i-th entries of the two arrays given, and nothing outside these arrays is read. Rodas weighs the error with atol+rtol*max(|y|,|ynew|) and Radau5 with the transformed tolerances (rtol'=0.1*rtol^(2/3), atol'=rtol'*atol/rtol).",
 ["inputs","configurations"],"all n, all positive tolerances, both policies, solutions of any sign",
 "All example programs use the scalar policy with equal tolerances.",
 [R,RO],[("tolerance policy",R),("tolerance policy",RO),("error weights",R)])
p("C07","Radau5 steps solve the 3-stage Radau IIA collocation equations",
 "Every accepted Radau5 step gives the solution of the three-stage Radau IIA collocation equations for that step, up to the Newton stopping tolerance: the Newton iteration evaluates the right hand side at the three Radau nodes, and its fixed points are exactly the collocation solutions, for non-autonomous and nonlinear right hand sides. The starting values of the iteration are zero on a first step and otherwise the previous step's collocation polynomial extrapolated.",
 ["inputs","histories"],"all right hand sides, Jacobian approximations, times, step sizes, states, step histories",
 "The tests integrate a few autonomous stiff problems to loose tolerance; a wrong node, transformation coefficient or predictor is absorbed by Newton or by step control.",
 [R],[("simplified Newton iteration",R),("transformed linear system",R),("collocation constants",R),("starting values",R)])
p("C08","Radau5 accepts exactly the steps whose error estimate is below tolerance",
 "A Radau5 step is accepted if and only if its Newton iteration converged within fewer iterations than the maximum and its weighted embedded error estimate is below one; a rejected or non-converged step leaves time and solution unchanged and is retried with a smaller step. The next step size follows the documented controller: the ratio new/old lies between the two limits, is the safety-scaled fourth-root rule, is not raised by the predictive controller, and does not increase right after a rejection.",
 ["inputs","histories"],"all error values, histories of accepted/rejected steps, Newton iteration counts",
 "The tests only see that integrations finish; which steps were accepted and with what ratio is never examined.",
 [R],[("error estimator",R),("acceptance test and step-size controller",R)])
p("C09","Radau5 integration delivers the solution exactly at the requested end time",
 "When Radau5 returns normally without the one-step option, the time variable equals the requested end time (to rounding), no right hand side or step goes beyond it, and the user's array holds the solution at that time; this holds for increasing and decreasing time. In one-step mode it returns after one accepted step with time and solution advanced together.",
 ["inputs","histories"],"all start/end times in either direction, initial steps, rejection and Newton-failure histories at the last step",
 "The tests always integrate forward and do not check the time reached, and no test has a Newton failure or rejection on the final step.",
 [R],[("last-step logic",R),("one-step mode",R)])
p("C10","Rodas steps are the six-stage Rosenbrock formulas of the selected method",
 "Each Rodas step evaluates the six-stage linearly implicit formula of the selected coefficient set: every stage solves (I/(h*gamma)-J)K=F(stage)+time-derivative term+combination of earlier stages, with the right hand side at the documented times, and the new solution and error estimate are the last two updates. For non-autonomous problems the time derivative enters with the documented weights, for autonomous problems it is absent.",
 ["inputs","configurations"],"all right hand sides, Jacobians, times, step sizes, states, three coefficient sets, autonomous or not, analytic or numerical time derivative",
 "The tests run few problems without comparing any stage; order reduction from one wrong coefficient still finishes.",
 [RO],[("stage computation",RO),("time derivative",RO)])
p("C11","Rodas step control: acceptance, step ratio, end time, result delivered",
 "A Rodas step is accepted if and only if its weighted error is at most one; a rejected step is retried from the same time and solution with a smaller step, the new/old ratio stays between 1/5 and 6 and follows the safety-scaled fourth-root rule. On return the time equals the requested end time up to rounding (either direction) and the user's array holds the solution computed for that time.",
 ["inputs","histories"],"all error sequences, both time directions, initial steps, end times",
 "No test checks the returned array of Rodas, the time reached, or a rejection on the final step.",
 [RO],[("acceptance and step-size controller",RO),("delivery of the result",RO)])
p("C12","Rock4 step is the stabilised recurrence plus the four-stage finishing formula",
 "One Rock4 step computes, from the coefficient tables for the selected degree, the three-term recurrence of internal stages followed by the four-stage finishing method, and its error estimate is the tolerance-weighted root mean square of the embedded combination. The right hand side kept for the next step is the one evaluated at the new solution.",
 ["inputs"],"all sizes, right hand sides, states, step sizes and all table degrees",
 "The single example compares nothing per step, and most degrees are never selected.",
 [R4,TO],[("step kernel",R4),("recurrence and combinations",TO)])
p("C13","Rock4 degree, acceptance and time control",
 "For every step the degree chosen is the smallest tabulated one sufficient for the spectral radius and step (or the step is cut to the largest table degree), with coefficients of that same degree. A step is accepted if and only if its error is below one, otherwise time, solution and stored derivative are unchanged and the step shrinks (after ten consecutive rejections at one time it restarts from 1e-5); integration ends exactly at the end time.",
 ["inputs","histories"],"all spectral radii, steps, tolerances, error histories, intervals",
 "The example runs one diffusion problem with one tolerance; wrong table rows or a lost stored derivative after rejection are not observable there.",
 [R4],[("degree selection",R4),("acceptance and time loop",R4)])
p("C14","Parallel Rock4 gives the serial result for every thread schedule",
 "With the parallel option every vector loop of Rock4 produces the result of the serial build for every number of threads and every schedule (up to summation order in the error norm): no iteration reads or writes an element another iteration writes, except through a declared reduction.",
 ["schedules","inputs"],"all schedules, thread counts and vector lengths",
 "A data race shows only under particular interleavings; the tests run once and print no error values.",
 [TO],[("parallel loops",TO)])
p("C15","Rock4L applies exactly the ROCK4 stability polynomial of the operator",
 "One Rock4L step applies to the solution exactly the polynomial in dt*A that ROCK4 of the selected degree prescribes (linear case), or the ROCK4 step for Ay+b (affine case), for every linear operator. The operator is never asked to write into one of the vectors it reads, and the vector b is not modified.",
 ["inputs"],"all linear operators, vectors b, sizes, time steps and table degrees",
 "The examples use one heat operator and print one norm.",
 [RL],[("linear step",RL),("affine step",RL),("Horner coefficients",RL)])
p("C16","Rock4L time loop: exact end time, mode and degree guards",
 "Rock4L performs steps of the given size until exactly the end time, only the last step being adjusted to the remaining time (shortened, or stretched by at most 1%); calling the variant that does not match the construction mode, or needing more stages than tabulated, raises the library's exception and leaves the solution of the last completed step intact. The degree used is always sufficient for the spectral radius reported by the operator.",
 ["inputs","histories"],"all intervals, steps, spectral radii, both modes",
 "The examples use one interval that the step divides, and trigger no exception.",
 [RL],[("time loop",RL),("mode guard",RL)])
p("C17","SDIRK step computes the tableau's step for linear and affine problems",
 "One step of the linear SDIRK integrator, with a solver that inverts I-dt*gamma*A, leaves in the user's array exactly the Runge-Kutta step of the selected tableau for du/dt=Au, or du/dt=Au+b with the forcing given, for every operator, number of stages and size. The forcing vector is not changed, and calling the variant not matching the construction mode raises an exception.",
 ["inputs","configurations"],"all linear operators, forcings, sizes, steps, all shipped tableaux",
 "The examples use one Laplacian and no forcing check.",
 [SD],[("stage computation",SD),("final combination",SD)])
p("C18","Shipped SDIRK tableaux are consistent and have their stated order",
 "Every shipped SDIRK tableau has constant diagonal, row sums equal to its abscissae, and weights that satisfy the order conditions of the method it names, to the printed precision.",
 ["configurations"],"all five tableaux, all order conditions up to the stated order",
 "A wrong digit in a table still gives a convergent, plausible run.",
 ["SDIRKL/include/RKMethod1.hpp","SDIRKL/include/RKMethod2.hpp","SDIRKL/include/RKRS.hpp","SDIRKL/include/CrN.hpp","SDIRKL/include/EulerImp.hpp"],[("coefficient tables","SDIRKL/include")])
p("C19","Gauss coefficients are symplectic collocation coefficients for every stage count",
 "For every stage count 2 to 16 and both precisions the coefficients satisfy b_i a_ij+b_j a_ji=b_i b_j, integrate polynomials of degree 2s-1 exactly and satisfy the collocation conditions, to the printed precision; changing the step size multiplies exactly these coefficients by the step. Any other stage count raises the library's exception.",
 ["configurations","histories"],"stage counts 2..16, double and long double, all step sizes and sequences of step-size changes",
 "The tests use one or two stage counts, and a wrong digit in another table is invisible.",
 [GM,"SymplecticRK/sage/generated_coeffs.hpp"],[("coefficient tables","SymplecticRK/sage/generated_coeffs.hpp"),("scaling by the step",GM)])
p("C20","Symplectic step: success means a converged fixed point, failure changes nothing",
 "A symplectic step reports success only if the last fixed-point sweep changed the stages by no more than the stopping threshold and the residual stopped decreasing; the new state is then the old one plus h*sum b_i f(stage_i), accumulated with compensated summation whose carried error is the exact remainder. If the iteration limit is reached without success, the state and the carried error are unchanged and failure is reported.",
 ["inputs","histories"],"all right hand sides, states, step sizes, stage counts, iteration limits, step histories",
 "The example checks an energy plot only; no test reaches the iteration limit or inspects the compensation.",
 [SY,FT],[("fixed point iteration",SY),("stopping test",FT),("compensated update",SY)])
p("C21","Symplectic step size can change at any time; predicted start values are local",
 "A step after a change of step size uses coefficients for exactly the new step, in the working precision, whatever the sequence of earlier steps and sizes. The start values predicted for the stages of a component use only data of the same component and stay inside the stage arrays, for all combinations of dimension and stage count, and never affect the result of a converged step beyond the stopping threshold.",
 ["histories","configurations"],"all sequences of step sizes, dimensions, stage counts 2..16, double and long double",
 "The tests use a constant step and a dimension larger than the number of stages.",
 [SY,EX,GM],[("step-size change",SY),("predicted start values",EX)])
p("C22","Every integration terminates: step limits and step-too-small guards are enforced",
 "Radau5 and Rodas raise the library's exception once the number of attempted steps exceeds the user's limit, however the attempts fail (rejections, Newton failures, right hand sides returning non-finite values); the explicit integrators raise it when the step becomes too small. No integration call loops forever.",
 ["inputs","histories"],"all right hand sides including failing ones, all limits, all rejection histories",
 "The tests only run problems that succeed.",
 [R,RO,R4,RL],[("step limit",R),("step limit",RO),("minimum step",R4)])
p("C23","A solver object's result does not depend on its earlier integrations",
 "Calling an integrator again with the same arguments and settings on a used object (including one whose previous call ended in an exception or was in the other direction) gives the same solution, time and counters as on a fresh object.",
 ["histories"],"all pairs of an arbitrary earlier history and a new call, all solvers except the symplectic compensation that is documented to carry over",
 "The tests call each integrator once per object or in one continuing sequence.",
 [R,RO,R4,RL,SD],[("initialisation at the start of an integration",R),("initialisation at the start of an integration",RO)])
p("C24","User settings take effect and stay in effect",
 "Each setting a solver offers (safety factor, step-ratio limits, Newton iteration limit, Newton threshold, Jacobian recomputation threshold, predictive controller on/off, step limit, tolerances) governs the next integrations with exactly the value given, until it is set again, and changes nothing else (choosing tolerances also restores the default Newton threshold, which depends on them). An inadmissible Newton threshold raises the library's exception and is not installed.",
 ["inputs","histories"],"all settings and values, in any order, before any integration",
 "The tests never change most settings and never observe their effect.",
 [R,RO,R4],[("setters",R),("setters",RO),("tolerances",R4)])
p("C25","Statistics counters report exactly the work done",
 "The counters a solver reports after an integration equal the number of those events in that integration, for every history of acceptances, rejections and Newton failures: Radau and Rodas: steps attempted (a retry after a Newton failure is an attempt), accepted, rejected by the error test (once a step has been accepted), Jacobians, factorisations, first accepted step; Radau: right-hand side evaluations (including those of a numerical Jacobian); Rock4: steps performed, accepted, rejected, right-hand side evaluations, largest number of stages used, last accepted step; Rock4L: steps, operator calls, largest number of stages used.",
 ["inputs","histories"],"all histories of one integration",
 "The tests print counters but nothing recomputes them from the events.",
 [R,RO,R4,RL],[("counters",R),("counters",RO),("counters",R4)])
p("C26","Every buffer has one owner, is released once, by the matching deallocator",
 "Constructing, copying, exchanging, using and destroying vectors, matrices and solver objects releases every allocated buffer exactly once with the deallocator that matches its allocator, in both the aligned and the default allocation mode, and never uses a buffer after its release. Copies of vectors and matrices are independent of their originals (solver objects are constructed, used and destroyed, not copied).",
 ["histories","configurations"],"all sequences of construction, copy, exchange, workspace growth and destruction, both allocation modes",
 "The tests never copy a container, and mismatched release passes silently.",
 [FV,"common/include/fortranArray.hpp",M,"common/include/AllocateDestroyVector.hpp"],[("constructors, copies and destructors",FV)])
p("C27","No access outside, and no use of uninitialised, storage in any public operation",
 "For every order, bandwidth, stage count and option combination the library accepts, all array accesses made by its operations stay inside the arrays concerned, no result depends on uninitialised storage, and buffers passed to aligned kernels are aligned.",
 ["inputs","configurations"],"all sizes from 1, all bandwidths, stage counts, both allocation modes",
 "The tests use a few comfortable sizes; an access one past an array is silent.",
 [FV,M,HS,R,RO,R4,TO,RL,SD,SY,EX],[("loop bounds and allocations","all headers")])
p("C28","The event log lists exactly the events of the last integration, in order",
 "With logging compiled in, the log of Radau5, Rodas and Rock4 after an integration contains, in order of occurrence and with the time and step number in force: for Radau5 a changedH entry with the new step each time the step size is set (given, default, limited to the interval, cut for the last step, changed by the controller), a NewtonFailed or NewtonWillNotConverge entry for each Newton iteration that fails or is given up, and a rejectedStep entry with the step rejected for each step whose error estimate is not below one; for Rodas a changedH entry for each step size set while a step is prepared; for Rock4 a success entry for each accepted step and a rejectedStep entry with the step proposed next for each rejected attempt; and no other entries. tostring(kind) and the stream operator show exactly the entries of that kind (all of them), and logging does not alter results, statistics or calls of user functions. A new integration starts with an empty log.",
 ["inputs","histories"],"all event sequences, filters and repeated integrations",
 "The tests print the log of one run without comparing it to anything.",
 [LG,R,RO,R4],[("event log",LG),("log calls",R)])
p("C29","Rodas coefficient sets satisfy their order conditions",
 "Each of the three shipped Rodas coefficient sets satisfies, to printed precision, the Rosenbrock order conditions for order four of the solution and order three of the embedded one, is stiffly accurate, and has abscissae and time-derivative weights consistent with its stage coefficients; any other method number raises the library's exception.",
 ["configurations"],"three coefficient sets, all rooted-tree conditions up to order four, consistency of abscissae",
 "A wrong digit lowers the order but runs still finish.",
 [RO],[("coefficient tables",RO)])
p("C30","ROCK4 tables: order four and damped stability on the whole real interval",
 "For each of the tabulated degrees the composite method built from the tables satisfies the order conditions up to order four (order three for the embedded method), and its stability polynomial is bounded by one on the whole real interval the degree selection relies on. The tables of the linear and the general variants agree.",
 ["configurations"],"all 50 table degrees, all rooted-tree conditions up to order four, the whole interval [-0.353(s^2)+3,0]",
 "Most degrees are never selected by the examples; one wrong table entry goes unnoticed.",
 ["Rock4-NG/include/coeffs-rock4","Rock4-L/include/coeffs-rock4","Rock4-NG/include/Rock4Coeffs.hpp"],[("coefficient tables","Rock4-NG/include/coeffs-rock4")])
p("C31","Global error of an integration stays proportional to the tolerance",
 "For well-posed problems the error of the delivered solution at the end time is bounded by a moderate multiple of the tolerance requested.",
 ["inputs","programs"],"all well-posed problems and tolerances",
 "It would need all problems; the tests try a few.",[R,RO,R4],[("error estimation and step control",R)])
p("C32","Long-time energy behaviour of the symplectic integrator",
 "For Hamiltonian problems the energy error of the symplectic integrator stays bounded over exponentially long times for small steps.",
 ["inputs","histories"],"all analytic Hamiltonians, small steps, long times",
 "Only asymptotic analysis can settle it; the example samples a few orbits.",[SY],[("symplectic coefficients",SY)])
open("/verif/properties.jsonl","w").write("".join(json.dumps(x)+"\n" for x in P))
