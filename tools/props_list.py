prop("N01", "Number operations return exact values or true enclosures",
     "On arbitrary-precision integers and rationals, rounding, division, remainders, gcd and lcm, powers, square and n-th roots, sign tests and conversions give the mathematically exact result, or, where a result is irrational or not representable, bounds that enclose it. Reading a numeral yields exactly the number it denotes and fails on every other text; printing and reading back is the identity. Native and wrapped numbers agree with the exact types wherever both can represent the operands.",
     ["inputs"], "all operands of any size and sign, including half-way values, perfect powers, values next to the limits of native types, and all numeral texts",
     "The unit tests evaluate a few dozen fixed small operands; wrong signs, rounding at half-way points, huge values or unusual numerals are outside of what they touch.",
     ["src/carl/numbers"], [("rounding, division, roots, parsing", "src/carl/numbers/adaption_gmpxx/operations.h, operations.cpp"), ("directed rounding", "src/carl/numbers/conversion/generic.h"), ("numeral grammar", "src/carl/numbers/parser/parser.h")])
prop("N02", "Residue arithmetic, primes and integer factorisations are correct",
     "Numbers of a finite residue ring always hold the symmetric representative, so sums, products, negations, inverses and quotients agree with integer arithmetic modulo the ring size through every form of each operator, and zero and one are recognised. The enumeration of primes is complete, gapless and in order, and a factorisation is a list of primes whose product is the number.",
     ["inputs", "histories"], "all primes and exponents including 2 and sizes beyond 32 and 64 bits, all integer operands, all orders of requests",
     "The unit tests use a handful of small positive residues modulo small odd primes and the compound operators are hardly called.",
     ["src/carl/numbers/GFNumber.h", "src/carl/numbers/GFNumber.tpp", "src/carl/numbers/GaloisField.h", "src/carl/numbers/PrimeFactory.h", "src/carl/numbers/FactorizationFactory.h"],
     [("symmetric remainder", "GaloisField.h"), ("operators", "GFNumber.tpp"), ("prime table", "PrimeFactory.h")])
prop("I01", "Interval arithmetic encloses every value",
     "Sums, differences, products, quotients, powers, absolute values, roots and reciprocals of intervals contain the result for every choice of operands in the intervals, whatever combination of open, closed and infinite ends they have; over the rationals the result is the exact image. Constructing or converting an interval never loses a point.",
     ["inputs"], "all pairs of intervals over rationals and doubles with open, closed or infinite ends, empty intervals and points",
     "The tests fix some dozens of mostly closed and bounded operands; symmetric intervals, ends at zero, half-bounded operands and rounding of doubles are combinations they do not reach.",
     ["src/carl/interval/Interval.tpp", "src/carl/interval/operators.h", "src/carl/interval/power.h", "src/carl/interval/conversion.h"],
     [("case distinctions on the signs of the ends", "Interval.tpp"), ("operators with numbers", "operators.h"), ("even and odd powers", "power.h")])
prop("I02", "Intervals behave like the sets of numbers they denote",
     "Membership, inclusion, intersection, union, difference, complement, hull, ordering, sign tests, integrality, width, centre, distance and splitting of intervals agree with the same notions on sets of real numbers. Every sampling strategy returns a member of the interval, and equal intervals are recognised as equal with equal hashes.",
     ["inputs", "histories"], "all pairs of intervals with open, closed or infinite ends, in particular with shared ends, and all sequences of bound changes",
     "Set operations are tested on a few bounded examples; shared ends with different openness and unbounded operands form a product of cases that fixed examples do not cover.",
     ["src/carl/interval/set_theory.h", "src/carl/interval/sampling.h", "src/carl/interval/Interval.h", "src/carl/interval/Interval.tpp", "src/carl/interval/evaluate.h"],
     [("bound comparison", "operators.h"), ("set operations", "set_theory.h"), ("sampling", "sampling.h")])
prop("I03", "Evaluation over boxes encloses and contraction loses no solution",
     "Evaluating a monomial, term, polynomial or nested polynomial scheme over a box of intervals yields an interval that contains the value at every point of the box, and the value itself if the box is a point. Contracting the interval of a variable with a constraint or equation keeps the coordinate of every solution in the box and never leaves the box. Elementary functions over intervals contain the values at all points.",
     ["inputs"], "all sparse polynomials in a few variables, all boxes with bounded, unbounded, open and closed sides, every point of the box, every variable to contract and every relation",
     "The tests contract a few boxes and compare with precomputed bounds; solutions at open ends, divisors containing zero and unbounded boxes are not searched.",
     ["src/carl/interval/IntervalEvaluation.h", "src/carl/interval/Contractor.h", "src/carl/interval/Contraction.h", "src/carl/interval/trigonometric.h", "src/carl/interval/exponential.h", "src/carl/core/MultivariateHorner.h"],
     [("evaluation", "IntervalEvaluation.h"), ("solving for a variable", "Contractor.h"), ("interval Newton step", "Contraction.h")])

prop("P01", "Polynomials form a ring and have a canonical form",
     "Sums, differences, products, negations and powers of multivariate polynomials, in every combination with monomials, terms, variables and numbers and in every operator form, have exactly the terms of the mathematical result, with every monomial once and no zero coefficient. Whatever sequence of operations produced a polynomial, it equals, hashes like and is ordered like the same polynomial built directly, and leading term, constant part, degrees and variables are those of its terms.",
     ["inputs", "histories"], "all sparse polynomials over integers, rationals and finite fields, operands that share and cancel monomials, and all sequences of in-place operations",
     "The tests add and multiply a few dense examples; zero and constant operands, cancellation of leading terms and reuse of lazily ordered results appear in combinations that examples do not enumerate.",
     ["src/carl/core/MultivariatePolynomial.h", "src/carl/core/MultivariatePolynomial.tpp", "src/carl/core/MultivariatePolynomial_operators.h", "src/carl/util/TermAdditionManager.h"],
     [("lazy ordering of terms", "MultivariatePolynomial.tpp"), ("accumulation of terms", "src/carl/util/TermAdditionManager.h"), ("comparison between types", "MultivariatePolynomial_operators.h")])
prop("P02", "Monomials and terms are unique values with a monomial order",
     "Products, quotients, powers, least common multiples and square roots of monomials and terms are the mathematical ones, and two monomials with the same exponents are the same object while any of them is alive, whatever was created and released before. The order of monomials is total, compatible with multiplication and agrees with the documented graded order, and variables keep their names, types and identities.",
     ["inputs", "histories"], "all exponent vectors and coefficients, and all sequences of creating, copying and releasing monomials and variables",
     "The pool is tested by creating a few monomials once; reuse after release, collisions and the order on many variables need long random histories.",
     ["src/carl/core/Monomial.h", "src/carl/core/Monomial.cpp", "src/carl/core/MonomialPool.h", "src/carl/core/MonomialPool.cpp", "src/carl/core/Term.tpp", "src/carl/core/Variable.h", "src/carl/core/VariablePool.h", "src/carl/core/Variables.h"],
     [("unique monomials", "MonomialPool.cpp"), ("graded order", "Monomial.cpp"), ("variable identities", "VariablePool.cpp")])
prop("P03", "Substitution, evaluation and derivatives agree with calculus",
     "Replacing variables in a polynomial by numbers, terms or polynomials, one at a time or simultaneously, by value or in place, yields the composed polynomial, and evaluating at a point yields its value there. Derivatives of any order with respect to any variable are the formal ones. Changing between the multivariate form and the form with a main variable, or changing or renaming the main variable, never changes the polynomial.",
     ["inputs"], "all sparse polynomials, all partial maps of variables to zero, numbers, terms and polynomials, also ones containing the replaced variables, all orders of derivatives and all main variables",
     "The tests substitute a few values; substituting zero, a value that contains the variable, or several variables with shared powers, exercises caching paths that they do not reach.",
     ["src/carl/core/polynomialfunctions/Substitution.h", "src/carl/core/polynomialfunctions/Evaluation.h", "src/carl/core/polynomialfunctions/Derivative.h", "src/carl/core/polynomialfunctions/Representation.h", "src/carl/core/polynomialfunctions/to_univariate_polynomial.h", "src/carl/core/polynomialfunctions/Power.h"],
     [("cached powers", "Substitution.h"), ("factor of repeated derivatives", "Derivative.h"), ("collecting coefficients", "to_univariate_polynomial.h")])
prop("P04", "Univariate polynomials form a ring over any coefficients",
     "Arithmetic of univariate polynomials over integers, rationals, finite fields and polynomials, in every operator form, gives the coefficients of the mathematical result without leading zeroes, and every constructor yields the stated polynomial. Equality is equality of polynomials also across main variables, all orders are strict orders, and contents, denominators, normal forms, reversed, negated, reduced and converted polynomials are what they claim to be.",
     ["inputs"], "all coefficient sequences of moderate degree, including zero, constants, sparse ones and operands whose leading coefficients cancel",
     "The tests use few polynomials of low degree over the rationals; zero, gaps in coefficients, other coefficient domains and mixed operators are not covered.",
     ["src/carl/core/UnivariatePolynomial.h", "src/carl/core/UnivariatePolynomial.tpp", "src/carl/core/polynomialfunctions/Content.h", "src/carl/core/polynomialfunctions/PrimitivePart.h"],
     [("coefficient vectors", "UnivariatePolynomial.tpp"), ("comparison", "UnivariatePolynomial.tpp")])
prop("P05", "Greatest common divisors and factorisations are correct",
     "The greatest common divisor of two polynomials divides both and is divided by every common divisor, cofactors combine to it, and least common multiple, content and primitive part fit to it. Square-free parts have exactly the same irreducible factors, without repetition. The factors of a factorisation are square-free and pairwise coprime where they are claimed to be, and multiply back to the polynomial, including sign and constant.",
     ["inputs"], "all pairs of sparse polynomials in up to three variables over integers and rationals and of univariate ones over finite fields, built from shared, repeated and coprime factors",
     "Multivariate gcds are only printed by the existing tests or not built at all; random products of planned factors are needed to reach the recursive cases.",
     ["src/carl/core/polynomialfunctions/GCD_multivariate.h", "src/carl/core/polynomialfunctions/GCD_univariate.h", "src/carl/core/polynomialfunctions/PrimitiveEuclidean.h", "src/carl/core/polynomialfunctions/SquareFreePart.h", "src/carl/core/polynomialfunctions/Factorization_univariate.h", "src/carl/core/polynomialfunctions/LCM.h"],
     [("primitive remainder sequences", "PrimitiveEuclidean.h"), ("extended Euclid", "GCD_univariate.h"), ("removal of linear factors", "Factorization_univariate.h")])
prop("P06", "Polynomial division satisfies the division identity",
     "Dividing polynomials yields a quotient and a remainder such that dividend equals quotient times divisor plus remainder and the remainder cannot be reduced further; exact division succeeds exactly for multiples. Pseudo remainders are congruent to the dividend times the stated power of the leading coefficient and have smaller degree. Leading terms cancel in the combination of two polynomials used for completing bases.",
     ["inputs"], "all dividends and divisors over rationals, integers, finite fields and polynomial coefficients, including zero and constant ones, multiples and larger divisors",
     "Existing tests divide a handful of dense polynomials that mostly divide evenly; remainders whose degree drops by more than one and failed divisions are rare in examples.",
     ["src/carl/core/polynomialfunctions/Division.h", "src/carl/core/polynomialfunctions/Remainder.h", "src/carl/core/polynomialfunctions/Quotient.h", "src/carl/core/polynomialfunctions/SPolynomial.h", "src/carl/core/Term.tpp"],
     [("division by leading terms", "Division.h, Quotient.h"), ("pseudo division", "Remainder.h")])
prop("P07", "Resultants, discriminants and subresultants are the determinants they stand for",
     "The resultant of two polynomials vanishes at exactly those values of the parameters where they have a common root or both leading coefficients vanish, and is the determinant of the Sylvester matrix up to a constant factor; the discriminant vanishes exactly at multiple roots. Every available strategy of computing the subresultant chain gives polynomials of the ideal of the two operands with the mathematically determined degrees, up to a constant factor.",
     ["inputs"], "all pairs of polynomials with numbers or polynomials in up to two parameters as coefficients, with shared factors, degree gaps and constant operands, and all three strategies",
     "The tests compare a few chains with printed results; defective sequences, where degrees drop by several steps at once, need generated polynomials with planned common factors.",
     ["src/carl/core/polynomialfunctions/Resultant.h"],
     [("pseudo remainder sequence and its strategies", "Resultant.h"), ("principal coefficients", "Resultant.h")])
prop("P08", "Signs, sums of squares, Horner schemes and integer solutions are right",
     "A polynomial that is reported definite has that sign at every point, and a sum of squares decomposition adds up to the polynomial and is found for every nowhere negative quadratic polynomial. A nested scheme expands to the polynomial it was built from. Extended greatest common divisors and solutions of linear equations over the integers are correct, and an equation without integer solution is recognised; degrees, linearity and complexity are those of the terms.",
     ["inputs"], "all sparse polynomials, definite, indefinite and borderline quadratic ones, all selection heuristics for nested schemes, all linear equations with up to four unknowns",
     "The tests classify some textbook polynomials; borderline quadratic forms, rational coefficients and equations with shared divisors are not searched, and nested schemes and integer equations have no test in the usual configuration.",
     ["src/carl/core/polynomialfunctions/Definiteness.h", "src/carl/core/polynomialfunctions/SoSDecomposition.h", "src/carl/core/MultivariateHorner.h", "src/carl/core/MultivariateHorner.tpp", "src/carl/core/DiophantineEquation.h", "src/carl/core/polynomialfunctions/Degree.h", "src/carl/core/polynomialfunctions/Complexity.h"],
     [("completing squares", "SoSDecomposition.h"), ("sign of even monomials", "Definiteness.h"), ("choice of the next variable", "MultivariateHorner.tpp")])
prop("R01", "Real algebraic numbers compare like the real numbers they denote",
     "Two real algebraic numbers compare with each other and with rational numbers exactly like the roots they denote, in every relation, however they were represented and refined before. Signs, integrality, floors, ceilings, sampling below, above and between numbers, containment in intervals, signs of polynomials at the number, absolute values and hashes are those of the real number, and refining never changes the value.",
     ["inputs", "histories"], "all roots of square-free and other integer polynomials of moderate degree, rational ones included, pairs of equal, close and conjugate roots in different representations, and all sequences of refinements, copies and comparisons",
     "The test for this type is left out of the usual build and only compares a few square roots; shared lazily refined state, equal numbers with different polynomials and close roots need generated histories.",
     ["src/carl/ran/interval/ran_interval.h", "src/carl/ran/ran_operations.h", "src/carl/ran/ran_operations_number.h", "src/carl/ran/ran.h"],
     [("comparison with refinement", "ran_interval.h"), ("shared interval and polynomial", "ran_interval.h")])
prop("R02", "Root bounds and root counts are correct",
     "Every bound on the roots of a polynomial is an upper bound on their absolute value or on the positive roots as stated. Sturm sequences count exactly the distinct real roots in any interval, the sign change bound is an upper bound of the right parity, and the number of sign changes and of roots at infinity are exact. Removing zero or a known root and mirroring a polynomial change the roots exactly as stated.",
     ["inputs"], "all polynomials of moderate degree over integers and rationals, with multiple and rational roots, all open, closed, half open and unbounded intervals, also with roots at their ends",
     "The tests count the roots of a handful of polynomials; roots at the ends of intervals and multiple roots are the cases in which counting goes wrong and they are rarely hit by examples.",
     ["src/carl/core/polynomialfunctions/RootBounds.h", "src/carl/core/polynomialfunctions/RootCounting.h", "src/carl/core/polynomialfunctions/RootElimination.h", "src/carl/core/polynomialfunctions/SturmSequence.h", "src/carl/core/Sign.h", "src/carl/core/polynomialfunctions/Chebyshev.h"],
     [("sign variations", "src/carl/core/Sign.h"), ("counting in intervals", "RootCounting.h")])
prop("R03", "Real root isolation finds exactly the real roots",
     "Isolating the real roots of a polynomial within an interval returns every distinct real root of the interval exactly once, in increasing order, and nothing else. The same holds for a polynomial whose other variables are replaced by real algebraic numbers, where it is also reported correctly if the polynomial vanishes there identically.",
     ["inputs"], "all polynomials of moderate degree with rational, irrational, multiple and close roots, all kinds of intervals, and up to two parameters assigned to conjugate or independent algebraic numbers",
     "The existing tests isolate few polynomials over the whole line; roots at interval ends, very close roots and vanishing leading coefficients at algebraic points are not covered, and most of these tests are not built.",
     ["src/carl/ran/interval/RealRootIsolation.h", "src/carl/ran/interval/ran_interval_real_roots.h", "src/carl/ran/interval/FieldExtensions.h", "src/carl/ran/interval/LazardEvaluation.h", "src/carl/ran/interval/AlgebraicSubstitution.h", "src/carl/ran/real_roots.h"],
     [("bisection", "RealRootIsolation.h"), ("removal of known roots", "RealRootIsolation.h"), ("elimination of algebraic coordinates", "ran_interval_real_roots.h")])
prop("R04", "Evaluation at algebraic points is exact",
     "The value of a polynomial at a point with real algebraic coordinates is the real algebraic number it denotes, whatever representation the coordinates have. A comparison of a polynomial with zero at such a point is decided like over the real numbers, in every relation, and evaluating never changes the coordinates.",
     ["inputs"], "all sparse polynomials in up to three variables at points with rational, dependent and independent algebraic coordinates, in particular ones where the polynomial vanishes or nearly vanishes",
     "Deciding whether a value is exactly zero is only possible with the algebraic relation between coordinates; the tests use a few square roots.",
     ["src/carl/ran/interval/ran_interval_evaluation.h", "src/carl/ran/interval/ran_interval_extra.h", "src/carl/ran/interval/ran_interval.h"],
     [("interval refinement with a root bound", "ran_interval_evaluation.h"), ("elimination by resultants", "ran_interval_evaluation.h")])
prop("G01", "Groebner bases generate the ideal and reduction stays in it",
     "Whatever polynomials are added, reduced beforehand, computed, reset or copied in whatever order, the computed basis is the reduced Groebner basis of the ideal generated by everything added, the unit ideal is recognised, and polynomials reported as redundant are so because of the recorded origins. A basis computed with real zeros in mind keeps every common real zero. Reducing a polynomial changes it only by members of the ideal and leaves nothing that could still be reduced, also after generators were removed from the ideal.",
     ["inputs", "histories"], "all small systems of polynomials in up to three variables including zero, constants, multiples and non-monic polynomials, and all interleavings of the operations on the procedure",
     "The tests compute a few fixed bases once from clean input; incremental use, zero and constant input and removed generators are not covered.",
     ["src/carl/groebner/GBProcedure.h", "src/carl/groebner/gb-buchberger/Buchberger.tpp", "src/carl/groebner/gb-buchberger/CriticalPairs.tpp", "src/carl/groebner/Ideal.h", "src/carl/groebner/Reductor.h", "src/carl/groebner/GBUpdateProcedures.h", "src/carl/groebner/ideal-ds/IdealDSVector.h", "src/carl/util/Heap.h", "src/carl/util/CompactTree.h"],
     [("criteria that skip critical pairs", "gb-buchberger/Buchberger.tpp"), ("divisor lookup", "ideal-ds/IdealDSVector.h"), ("reduction with a heap", "Reductor.h")])
prop("C01", "Constraints keep their solutions and describe themselves truthfully",
     "However a polynomial constraint is normalised, it holds at exactly the points at which the given one holds, points being integral in integer variables; constraints that differ by a positive factor or by turning the relation around are the same object, and negation is the complement. Degrees, coefficients, bounds, substitutions and assignments read off a constraint are those of its polynomial whatever was asked before. Whenever two constraints are said to imply, exclude or complement each other, or a constraint to hold or fail in a box, this is so at every point.",
     ["inputs", "histories"], "all sparse polynomials over real and integer variables with all relations, pairs that differ by factors and constants, all boxes, and all orders of creating, querying and releasing",
     "The tests create a few linear constraints; tightening over integers, definite forms, negative leading coefficients and the table of implications are decided by case distinctions that need many combinations.",
     ["src/carl/formula/Constraint.h", "src/carl/formula/Constraint.tpp", "src/carl/formula/ConstraintRaw.h", "src/carl/formula/ConstraintPool.h", "src/carl/formula/ConstraintPool.tpp", "src/carl/core/Relation.h", "src/carl/core/VariableInformation.h"],
     [("normalisation and tightening", "ConstraintRaw.h"), ("comparison of constraints", "Constraint.tpp"), ("pool of unique constraints", "ConstraintPool.tpp")])
prop("F01", "Formulas keep their meaning through construction and rewriting",
     "A formula built from any operands with any connective has the truth value of that connective on its operands at every assignment, however it is simplified, and building it again gives the same object. Negation, pushing negations inwards, substitution and merging of bounds keep the meaning, and a conversion to clauses is satisfiable by exactly the assignments that satisfy the formula, consists of clauses, and terminates. What a formula says about its shape, contents, variables, parts and complexity agrees with its structure, and creating and releasing formulas in any order leaves all others intact.",
     ["inputs", "histories"], "all formulas over a few Boolean variables and polynomial constraints with all connectives, constants, repeated and complementary operands, all assignments, all option combinations, and all sequences of creating and releasing",
     "The tests compare a few dozen small formulas; simplification depends on the combination of constants, duplicates, complements and orderings of operands, which only grows with nesting.",
     ["src/carl/formula/Formula.h", "src/carl/formula/Formula.tpp", "src/carl/formula/FormulaPool.h", "src/carl/formula/FormulaPool.tpp", "src/carl/formula/FormulaContent.h", "src/carl/formula/FormulaContent.tpp", "src/carl/formula/Condition.h", "src/carl/formula/helpers/to_cnf.h", "src/carl/formula/helpers/FormulaVisitor.h"],
     [("simplification on creation", "FormulaPool.tpp"), ("clauses with auxiliary variables", "helpers/to_cnf.h"), ("merging of bounds", "Formula.tpp")])
prop("B01", "Bit-vector terms and constraints follow the standard semantics",
     "A bit-vector value, term or constraint has the value the SMT-LIB standard gives it at every assignment, for every operator and width, including division by zero, shifts past the width, extraction, extension, rotation and repetition. Simplification on creation never changes that value, equal terms are the same object, and widths, variables, operands and complexities read off a term are those of its structure.",
     ["inputs"], "all terms of small depth over variables and constants of all widths up to 130 bits with every operator, all signs of the operands, zero divisors and all assignments; all operand pairs exhaustively for small widths",
     "The tests compare a few constants; the signed operators branch on four combinations of signs and the simplifier on special constants, which only meet in generated terms.",
     ["src/carl/formula/bitvector/BVValue.h", "src/carl/formula/bitvector/BVValue.cpp", "src/carl/formula/bitvector/BVTerm.cpp", "src/carl/formula/bitvector/BVTermPool.cpp", "src/carl/formula/bitvector/BVTermContent.h", "src/carl/formula/bitvector/BVConstraint.cpp", "src/carl/formula/bitvector/BVConstraintPool.cpp", "src/carl/formula/bitvector/BVCompareRelation.h"],
     [("signed division and remainder", "BVValue.cpp"), ("simplification on creation", "BVTermPool.cpp"), ("unique terms", "BVTermPool.cpp")])
prop("M01", "Evaluation under a model gives the true value",
     "Evaluating a polynomial, constraint, variable comparison or formula under a model gives its value at the point the model describes, whether the model assigns rational numbers, real algebraic numbers, polynomials in other variables or roots of polynomials. Under a partial model the result has the same value as the original at every completion. A model answers according to its latest assignments after any history of changes, and default models, rational assignments, conjunctions describing a model and implication by a model agree with the assignments.",
     ["inputs", "histories"], "all small formulas under total and partial models with rational and irrational values, values that depend on other variables, and all sequences of assigning, updating, erasing and evaluating",
     "The tests for models are not built in the usual configuration and evaluate a few formulas once; cached dependent values and equal numbers in different representations need generated models and histories.",
     ["src/carl-model/Model.h", "src/carl-model/ModelValue.h", "src/carl-model/Assignment.h", "src/carl-model/Assignment.tpp", "src/carl-model/ModelSubstitution.h", "src/carl-model/substitutions/ModelPolynomialSubstitution.h", "src/carl-model/substitutions/ModelMVRootSubstitution.h", "src/carl-model/evaluation/ModelEvaluation.h", "src/carl-model/evaluation/ModelEvaluation_Formula.h", "src/carl-model/evaluation/ModelEvaluation_Constraint.h", "src/carl-model/evaluation/ModelEvaluation_Polynomial.h", "src/carl-model/evaluation/ModelEvaluation_MVRoot.h", "src/carl-model/evaluation/ModelEvaluation_Bitvector.h", "src/carl-model/evaluation/ModelEvaluation_Uninterpreted.h", "src/carl/formula/VariableComparison.h", "src/carl/formula/VariableAssignment.h", "src/carl/formula/model/mvroot/MultivariateRoot.h"],
     [("substitution of model values", "ModelEvaluation_Polynomial.h"), ("cached dependent values", "ModelSubstitution.h"), ("three-valued evaluation", "ModelEvaluation_Formula.h")])
prop("V01", "Virtual substitution and square root expressions are exact",
     "A square root expression has the same real value after every normalisation, sum, product, quotient, partial assignment and composition, wherever it is defined, and rounded evaluation stays on the requested side. The zeros listed for a constraint or comparison in a variable are, under their side conditions, exactly its real zeros. Substituting an expression, an expression plus an infinitesimal, or an infinity for a variable gives cases one of which holds exactly when the original holds at that point.",
     ["inputs"], "all expressions with polynomial parts including squares, zero and negative denominators and vanishing factors, all constraints of degree up to three in the variable, all relations, and test points at and next to zeros",
     "No test covers this part; the case distinctions multiply signs of four polynomials with six relations and the mistakes show only for particular sign combinations.",
     ["src/carl/vs/SqrtEx.h", "src/carl/vs/SqrtEx.tpp", "src/carl/vs/zeros.h", "src/carl/vs/term.h", "src/carl/vs/term.tpp", "src/carl/vs/substitute.h", "src/carl/vs/substitute.tpp"],
     [("normalisation", "SqrtEx.tpp"), ("case distinction by signs", "substitute.tpp"), ("sign right of a point by derivatives", "substitute.tpp"), ("zeros with side conditions", "zeros.h")])
prop("K01", "Set covers cover everything, and exact ones are smallest",
     "Every procedure for covering a universe by sets returns sets that together contain every element that was contained before, the exact procedure uses the fewest possible sets, and the greedy one stops where its bound says. Essential sets are exactly those that alone contain some element, removing duplicate sets or elements keeps the covers, and a cover of typed sets names the objects behind the sets. Conflict cores over cases contain at least one reason for every case that is covered.",
     ["inputs"], "all families of sets over small universes, with duplicates, empty and essential sets, uncovered and repeatedly added elements, and all bounds",
     "The tests solve two fixed systems; optimality and the handling of elements that no set or only one set contains can only be judged against exhaustive search.",
     ["src/carl-covering/SetCover.h", "src/carl-covering/SetCover.cpp", "src/carl-covering/TypedSetCover.h", "src/carl-covering/heuristics/exact.cpp", "src/carl-covering/heuristics/greedy.cpp", "src/carl-covering/heuristics/remove_duplicates.cpp", "src/carl-covering/heuristics/select_essential.cpp", "src/carl-covering/heuristics/trivial.cpp", "src/carl/util/Covering.h"],
     [("greedy selection", "heuristics/greedy.cpp"), ("exact search", "heuristics/exact.cpp"), ("essential sets", "heuristics/select_essential.cpp")])
prop("U01", "Bit sets and identifier pools behave like sets of numbers",
     "A bit set or bit vector contains exactly the numbers the sequence of operations put there, where a bit set's default value stands for all numbers it does not store; unions, intersections, differences, complements, subset tests, counts, iteration, comparisons and hashes agree with sets of numbers and terminate. An identifier pool or generator never hands out an identifier that is in use and knows which ones were handed out.",
     ["inputs", "histories"], "all pairs of bit sets and bit vectors of different stored sizes and defaults built by generated sequences of operations, and all interleavings of obtaining, releasing and clearing identifiers",
     "The tests set a few bits within the initial size; operands of different stored sizes and defaults are where such structures go wrong.",
     ["src/carl/util/Bitset.h", "src/carl/util/BitVector.h", "src/carl/util/BitVector.cpp", "src/carl/util/IDPool.h", "src/carl/util/IDGenerator.h"],
     [("alignment of stored sizes", "Bitset.h"), ("subset test", "BitVector.cpp"), ("free identifiers", "IDPool.h")])
prop("U02", "Trees, heaps and caches keep their contents and their order",
     "A tree traversed in any order, forwards or backwards, over leaves, one depth, children or a path visits exactly the elements a plain tree model contains in that order, after any sequence of insertions, replacements and erasures. A heap always yields its largest element and keeps all others through insertion, removal, increase and decrease at any position. A cache gives equal elements one shared entry, keeps every entry that is referenced, and drops only entries that are not, which it does when it is full.",
     ["histories"], "all sequences of insertions, erasures, traversals, priority changes, registrations, releases and clean-ups over small structures",
     "The tests walk one fixed tree and use heaps only through other parts; mistakes show in particular shapes after erasures and in backward traversals.",
     ["src/carl/util/carlTree.h", "src/carl/util/Heap.h", "src/carl/util/CompactTree.h", "src/carl/util/Cache.h", "src/carl/util/Cache.tpp"],
     [("iterators", "carlTree.h"), ("sifting up and down", "CompactTree.h"), ("reference counts and clean-up", "Cache.tpp")])
prop("U03", "Helpers on pointers, tuples, variants and hashes act on the values",
     "Pointers are compared and hashed by the objects behind them, with a null pointer smaller than every other and equal only to itself, so that ordered and hashed containers keep one object per value. Concatenating, cutting, applying, mapping, folding and converting tuples has the effect of doing so element by element in order. A variant keeps type and value when it is extended, and equal values, groups and sequences have equal hashes.",
     ["inputs"], "all small collections of raw and shared pointers with shared, equal and missing objects, tuples of mixed types, variants over several types and sequences of values",
     "The tests apply two of these helpers to one fixed tuple; several specialisations are never compiled.",
     ["src/carl/util/pointerOperations.h", "src/carl/util/tuple_util.h", "src/carl/util/variant_util.h", "src/carl/util/hash.h", "src/carl/util/enum_util.h"],
     [("specialisations for pointers", "pointerOperations.h"), ("folding and conversion of tuples", "tuple_util.h"), ("combination of hashes", "hash.h")])
prop("X01", "Rational functions compute with their values",
     "Sums, differences, products, quotients and powers of rational functions, polynomials, variables and numbers have the value of the same operation on their values wherever all denominators are nonzero, whether or not the functions are simplified automatically, also when an operand is the function itself. Equality holds exactly when both functions agree, constants and zero are recognised, and numerator and denominator reproduce the function with a denominator that is not zero, also when read from the printed text.",
     ["inputs", "histories"], "all expressions over rational functions in up to three variables with plain or factorized polynomials, with and without automatic simplification, and all sequences of in-place operations",
     "The tests of this part are not built in the usual configuration and compare a few fixed results; each operator has separate code for constants, polynomials and variables.",
     ["src/carl-extpolys/RationalFunction.h", "src/carl-extpolys/RationalFunction.tpp"],
     [("elimination of common factors", "RationalFunction.tpp"), ("constants stored apart", "RationalFunction.tpp")])
prop("X02", "Factorized polynomials compute like the polynomials they stand for",
     "Every operation on factorized polynomials - sums, products, powers, quotients, common divisors and multiples, substitution, evaluation, comparison - gives the same polynomial as on the expanded operands, no matter which factors are known or shared in the cache. Questions such as degree, variables, constancy or leading coefficient give the answers of the expanded polynomial, and a factorization as well as the printed text multiplies out to the polynomial.",
     ["inputs", "histories"], "all small polynomials with repeated, shared and definite factors, in factorized form with complete, partial or no knowledge of the factors, and all sequences of operations that refine the shared cache",
     "The tests of this part are not built in the usual configuration; results depend on which factors earlier operations have put in the cache.",
     ["src/carl-extpolys/FactorizedPolynomial.h", "src/carl-extpolys/FactorizedPolynomial.tpp", "src/carl-extpolys/PolynomialFactorizationPair.h", "src/carl-extpolys/PolynomialFactorizationPair.tpp", "src/carl-extpolys/substitution.h", "src/carl-extpolys/evaluation.h"],
     [("refinement of factors", "PolynomialFactorizationPair.tpp"), ("gcd of factorizations", "PolynomialFactorizationPair.tpp"), ("shared cache", "FactorizedPolynomial.tpp")])
prop("O01", "Printed objects denote what was printed",
     "The text printed for a number, term, polynomial, bit-vector, constraint or formula denotes that same object when read by the rules of its format: the default infix notation, SMT-LIB, Maple, QEPCAD. An SMT-LIB script declares every used variable once with its type, asserts the given formulas in order and asks for exactly what was requested, and a printed model defines every assigned variable with its value. A formula exported as DIMACS clauses is satisfiable exactly when the original is, with correct counts in the header.",
     ["inputs"], "all small polynomials with negative, fractional and large coefficients, univariate polynomials over numbers and over polynomials, constraints, bit-vector terms with every operator, nested formulas with every connective, models and lists of formulas",
     "The tests compare a few printed strings; precedence, signs and nesting go wrong only for particular combinations, and the output has to be read by an independent reader to be judged.",
     ["src/carl-io/SMTLIBStream.h", "src/carl-io/MapleStream.h", "src/carl-io/QEPCADStream.h", "src/carl-io/DIMACSExporter.h", "src/carl/formula/Formula.h", "src/carl/formula/Constraint.h", "src/carl/core/Term.h", "src/carl/core/Monomial.h", "src/carl/core/UnivariatePolynomial.h", "src/carl/numbers/adaption_gmpxx/operations.cpp", "src/carl-model/Model.h"],
     [("printing of nested operands", "SMTLIBStream.h"), ("declaration of variables", "SMTLIBStream.h"), ("clausal form", "DIMACSExporter.h")])
prop("O02", "Text that is read means what it says",
     "Reading the text of a polynomial, rational function, propositional formula, DIMACS file or pseudo-Boolean file gives the object the text denotes by the usual rules of precedence, signs, spacing and comments, with one variable per name. Malformed sums of terms are reported as invalid instead of being read as something else, and what is printed for a polynomial reads back as the same polynomial.",
     ["inputs"], "all small texts of the grammars with arbitrary spacing, parentheses, signs, decimals, permuted factors, names that are prefixes of each other, files with comments, several formulas, empty clauses and objectives, and mutated or random texts",
     "The tests parse a handful of strings without sums or nested signs, and none reads a file.",
     ["src/carl/util/stringparser.h", "src/carl/util/parser/Parser.h", "src/carl/util/parser/PolynomialParser.h", "src/carl/util/parser/RationalFunctionParser.h", "src/carl/util/parser/FormulaParser.h", "src/carl-io/DIMACSImporter.h", "src/carl-io/OPBImporter.h", "src/carl-io/OPBImporter.cpp"],
     [("precedence in the grammar", "PolynomialParser.h"), ("malformed terms", "stringparser.h"), ("variables shared between formulas of a file", "DIMACSImporter.h"), ("objective and constraints", "OPBImporter.h")])
prop("E01", "Uninterpreted sorts, functions and equalities mean what they say",
     "Sorts are the same exactly when their name, parameters and indices are, declared or defined names are taken once, and instances of definitions are what textual replacement gives. Functions and terms are the same exactly when written the same, equalities are symmetric, and formulas over them keep their truth under construction, negation, clausal form, substitution and evaluation in any model, complete or partial. A script printed for such a formula declares every sort, function and constant it uses and asserts a formula with the same truth.",
     ["inputs", "histories"], "all histories of declarations, definitions, instantiations, indexing and replacement of sorts; all small terms over functions that may share names; all small formulas over equalities and Booleans with all function tables over three values per sort",
     "The tests create one or two sorts and functions and never evaluate or substitute in an equality; identity depends on what was created before.",
     ["src/carl/formula/Sort.h", "src/carl/formula/SortManager.h", "src/carl/formula/SortManager.cpp", "src/carl/formula/uninterpreted/UEquality.h", "src/carl/formula/uninterpreted/UEquality.cpp", "src/carl/formula/uninterpreted/UFInstance.h", "src/carl/formula/uninterpreted/UFInstance.cpp", "src/carl/formula/uninterpreted/UFInstanceManager.h", "src/carl/formula/uninterpreted/UFInstanceManager.cpp", "src/carl/formula/uninterpreted/UFManager.h", "src/carl/formula/uninterpreted/UTerm.h", "src/carl/formula/uninterpreted/UTerm.cpp", "src/carl/formula/uninterpreted/UninterpretedFunction.h", "src/carl/formula/helpers/FormulaVisitor.h", "src/carl-model/uninterpreted/UFModel.h", "src/carl-model/uninterpreted/UFModel.cpp", "src/carl-model/uninterpreted/SortValueManager.h", "src/carl-model/evaluation/ModelEvaluation_Uninterpreted.h", "src/carl-io/SMTLIBStream.h"],
     [("pools of sorts and functions", "SortManager.cpp"), ("order of both sides", "UEquality.h"), ("evaluation of function applications", "ModelEvaluation_Uninterpreted.h")])
prop("Y01", "Symmetries of a formula leave its truth unchanged",
     "Every symmetry found for a formula is an exchange of variables of equal type under which the truth of the formula is the same for every assignment. For propositional formulas the symmetries generate every exchange of variables that leaves the formula as it is. A formula breaking the symmetries keeps at least one image of every assignment, and excludes one of any two different assignments that an exchange maps to each other.",
     ["inputs"], "all small formulas made of renamed copies of one formula over Booleans, reals, integers, bit-vectors and uninterpreted variables, with all connectives and quantifiers over Booleans",
     "The only test of this part is not built in the usual configuration and has one pair of polynomials.",
     ["src/carl/formula/symmetry/symmetry.h", "src/carl/formula/symmetry/SymmetryFinder.h", "src/carl/formula/symmetry/SymmetryBreaker.h"],
     [("graph of a formula", "SymmetryFinder.h"), ("lexicographic order of images", "SymmetryBreaker.h")])
prop("Z01", "Settings take the values that were given",
     "Durations and quantities written with units are read as exactly the amount they denote, rejected when malformed or too large, and what is printed for an amount reads back as an amount with that text. Every option has the value of the command line if given there, else of the configuration file, else its default, finalizers see these values and are all called until none asks for another round, and misuse is reported. Presets, defaults and overrides set by a finalizer take effect exactly as documented.",
     ["inputs", "configurations"], "all texts of amounts with all units, signs, spaces and overflows; all small combinations of option groups, command lines with long, short and positional options, configuration files, flags, presets and finalizers",
     "The tests read two or three settings; the order of precedence and the repeated finalization only matter when several sources set the same option, and overflows only for the largest units.",
     ["src/carl-settings/settings_utils.h", "src/carl-settings/settings_utils.cpp", "src/carl-settings/SettingsParser.h", "src/carl-settings/SettingsParser.cpp", "src/carl-settings/Settings.h"],
     [("units", "settings_utils.cpp"), ("precedence of sources", "SettingsParser.cpp"), ("finalizers", "SettingsParser.cpp")])
prop("L01", "Log messages reach their sinks and statistics are complete",
     "A message reaches exactly those sinks whose rule for the longest matching channel prefix admits its level, once, in the order of logging, with the text and the information its formatter promises, also when several threads log at the same time; a message nobody wants is not put together. Statistics collect exactly the values of the enabled modules, and both printed forms and the printed forms of standard containers contain exactly the given names, values and elements.",
     ["inputs", "histories", "schedules"], "all small sets of filter rules over dotted channels and levels; all sequences of installing sinks, rules and formatters and logging, also from several threads; all small statistics and nested containers",
     "The tests log a few lines to the terminal without looking at the output, and print the statistics without reading them.",
     ["src/carl-logging/Logger.h", "src/carl-logging/Filter.h", "src/carl-logging/Formatter.h", "src/carl-logging/Sink.h", "src/carl-logging/logging.h", "src/carl-logging/LogLevel.h", "src/carl-logging/logging_utils.h", "src/carl-statistics/Statistics.h", "src/carl-statistics/StatisticsCollector.h", "src/carl-statistics/StatisticsPrinter.h", "src/carl-statistics/Timing.h", "src/carl/io/streamingOperators.h"],
     [("hierarchy of channels", "Filter.h"), ("dispatch to sinks", "Logger.h"), ("prefix of a message", "Formatter.h"), ("printing", "StatisticsPrinter.h")])
prop("T01", "Tarski queries and Thom encodings describe the real zeros",
     "A Tarski query over a finite set of zeros is the number of zeros where a polynomial is positive minus the number where it is negative, and sign determination lists exactly the combinations of signs that occur, for any sequence of polynomials. The zeros of a polynomial found as Thom encodings, also above an encoded point and within an interval, are exactly its real zeros in ascending order. Comparison, sign, addition of a number and points in between agree with the real numbers these encodings stand for.",
     ["inputs", "histories"], "all small univariate polynomials and triangular systems in up to three variables with repeated, close, rational and irrational zeros, all sequences of asking and adding polynomials that vanish at none, some or all zeros, and all intervals with open, closed and infinite ends",
     "This part is built by no test in the usual configuration; wrong signs show only for particular positions of the zeros of several polynomials.",
     ["src/carl/ran/thom/ThomEncoding.h", "src/carl/ran/thom/ThomEncoding.tpp", "src/carl/ran/thom/ThomRootFinder.h", "src/carl/ran/thom/ThomUtil.h", "src/carl/ran/thom/SignDetermination/SignDetermination.h", "src/carl/ran/thom/TarskiQuery/TarskiQueryManager.h", "src/carl/ran/thom/TarskiQuery/UnivariateTarskiQuery.h", "src/carl/ran/thom/TarskiQuery/MultivariateTarskiQuery.h", "src/carl/ran/thom/TarskiQuery/MultiplicationTable.h", "src/carl/ran/thom/TarskiQuery/GroebnerBase.h", "src/carl/ran/thom/TarskiQuery/GroebnerBase.tpp", "src/carl/ran/thom/TarskiQuery/CharPol.h"],
     [("queries with cached products", "TarskiQueryManager.h"), ("combination of signs", "SignDetermination.h"), ("comparison by signs of derivatives", "ThomEncoding.h")])
