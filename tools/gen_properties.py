import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=None):
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,
      "anchors":{"files":["matrix/"+f for f in files],"state":state or [],"mechanism":[{"name":n,"where":"matrix/"+w} for n,w in mech],"observe_at":observe,"hook_needed":None}})
p("C01","Element-wise arithmetic is exactly the scalar arithmetic of each element",
 "For every shape and arithmetic element type, adding, subtracting (two matrices, or matrix and scalar in either supported order), postfix ++ and --, abs, scalar multiplication and division by a non-zero scalar give a matrix of the same shape whose every element is the result of the element type's own scalar operation on the elements at that position. No position is skipped, exchanged or computed in another precision, for ordinary, huge, tiny, negative, infinite and NaN elements alike.",
 ["inputs"],"all shapes, all element types, all element values for which the scalar operation is defined",
 "The tests run one or two 2x2 float matrices per operation (the test of matrix - matrix is empty, abs and matrix / scalar have none); position-, shape-, type- and value-dependent errors are out of their reach.",
 ["matrix_sum.hpp","matrix_sub.hpp","matrix_abs.hpp","matrix_mult.hpp","matrix_div.hpp"],
 [("sum loops and operator+","matrix_sum.hpp"),("sub loops and operator-","matrix_sub.hpp"),("abs loop","matrix_abs.hpp"),("scalar mult","matrix_mult.hpp"),("scalar div","matrix_div.hpp")],
 ["returned matrix"])
p("C02","The matrix product is the row-by-column sum for every pair of shapes",
 "For every n x m matrix A and m x p matrix B, A * B (and mult) is the n x p matrix whose element (i,j) is the sum over k of A(i,k)*B(k,j): exact in integer types when no intermediate overflows, within rounding in floating types. On 2x2 operands strassen gives the same product.",
 ["inputs"],"all conformable shapes, element types and element values",
 "One 2x3*3x2 pair and one 2x2 Strassen pair are tested; index errors that need other shapes, larger sizes or values beyond 24 bits are not reached.",
 ["matrix_mult.hpp","matrix_strassen.hpp","matrix_zeros.hpp"],
 [("triple loop accumulating into zeros","matrix_mult.hpp"),("seven products","matrix_strassen.hpp")],["returned matrix"])
p("C03","Dividing by zero always raises a catchable overflow_error",
 "Dividing a matrix by a zero scalar, or inverting (also through a negative power) a matrix whose determinant evaluates to zero, of any shape, size or element type, raises std::overflow_error, which the caller can catch and after which the library works as before. It never terminates the process, traps, hangs or returns a matrix; and a non-zero divisor or determinant, however small, never raises.",
 ["inputs","histories"],"all shapes, sizes, element types, zero and non-zero divisors, and all orders of failing and succeeding calls",
 "No test divides by zero or inverts a singular matrix.",
 ["matrix_div.hpp","matrix_inv.hpp","matrix_pow.hpp"],
 [("scalar == 0 test","matrix_div.hpp"),("detA == 0 tests","matrix_inv.hpp"),("negative exponent inverts","matrix_pow.hpp")],["exception type","process survival"])
p("C04","The determinant is right for every square matrix of every size",
 "det of a square matrix of any size is the signed sum of permutation products: exact in integer types whenever the minors (up to 3x3: the products as well) fit the type, up to its smallest and largest values, and within rounding error of the true value in floating types, whatever zeros stand on the diagonal and whatever row exchanges that forces. Singular matrices give zero up to the same rounding, and scaling the matrix scales the determinant accordingly.",
 ["inputs"],"all sizes n >= 1, element types and element values whose products of two stay in range",
 "Six fixed float matrices are tested; zero pivots, repeated row exchanges, pivots that are rounding errors, integer elements and sizes other than 2,3,4,5,9 are not.",
 ["matrix_det.hpp","matrix_swap.hpp"],
 [("closed forms for n<=3","matrix_det.hpp"),("elimination with pivoting and sign factor","matrix_det.hpp"),("fraction-free branch for integers","matrix_det.hpp")],["returned scalar"])
p("C05","The inverse is the inverse for every invertible matrix",
 "For every square matrix of any size with non-zero determinant, inv returns the matrix X with A*X = X*A = I, within rounding that depends only on the conditioning of A, in floating types, and exactly in integer types when the determinant is 1 or -1 and the cofactors fit the type. In particular each element is the cofactor of the transposed position over the determinant, with its sign.",
 ["inputs"],"all sizes n >= 1, invertible matrices of all structures and magnitudes",
 "Three float matrices (2x2, 3x3, 4x4) are tested, the latter two with tolerance 0.01.",
 ["matrix_inv.hpp","matrix_det.hpp","matrix_trans.hpp","matrix_div.hpp"],
 [("closed forms for n<=3","matrix_inv.hpp"),("cofactors, transpose, division","matrix_inv.hpp")],["returned matrix"])
p("C06","LU gives the unit lower and upper factors, or reports a zero pivot",
 "For every square floating-point matrix lu either returns (L, U) with L lower triangular with unit diagonal, U upper triangular and L*U equal to the input within rounding (exactly the unique factors when they are exactly computable; no claim when the elimination overflows the element type), or raises std::overflow_error because a pivot (a diagonal element of U, the last one included) is exactly zero. It raises in no other case, whatever the magnitude of the elements.",
 ["inputs"],"all sizes n >= 1 and all finite element values",
 "Two matrices (2x2, 3x3) are tested, none with a zero or tiny pivot.",
 ["matrix_lu.hpp"],[("Doolittle loops","matrix_lu.hpp"),("zero pivot test","matrix_lu.hpp")],["returned pair","exception type"])
p("C07","Cholesky returns the positive lower factor of every positive definite matrix",
 "For every symmetric positive definite matrix A of any size, chol returns the lower triangular L with positive diagonal and L*trans(L) = A within rounding, exactly when the factor is exactly computable, with zeros above the diagonal. isSymetric answers true exactly for the square matrices equal to their transpose.",
 ["inputs"],"all sizes n >= 1, all symmetric positive definite matrices; all square matrices for the predicate",
 "Two positive definite matrices are tested, and only the product is compared, with tolerance 0.01; the predicate is tested on one matrix each way.",
 ["matrix_cholesky.hpp"],[("row by row factorisation","matrix_cholesky.hpp"),("triangle comparison","matrix_cholesky.hpp")],["returned matrix","returned bool"])
p("C08","A power is the repeated product, for every integer exponent",
 "For every square matrix and every integer exponent of any integer type, pow(A, p) is the identity for p = 0, the p-fold product of A for p > 0 and the (-p)-fold product of inv(A) for p < 0; exact in integer and integer-valued floating matrices as long as the values fit. The argument is not changed.",
 ["inputs"],"all sizes, all matrices, all exponents (positive, zero, negative) whose result fits",
 "One 2x2 matrix with exponents -5..5 is tested; larger exponents (other bit patterns), other sizes and types are not.",
 ["matrix_pow.hpp","matrix_inv.hpp","matrix_eye.hpp"],[("halving recursion","matrix_pow.hpp"),("inversion for p < 0","matrix_pow.hpp")],["returned matrix"])
p("C09","Transposing, exchanging rows or columns and minors only move elements",
 "trans puts element (i,j) at (j,i); swap_rows and swap_cols exchange exactly the two named lines of the matrix, in place, in either order of the indices, and change nothing when the indices are equal; getminor(A, i, j) is A without row i and column j in unchanged order. Every element keeps its exact value (also NaN, infinities, signed zero, extreme integers) for every shape and every valid index.",
 ["inputs"],"all shapes, all pairs of valid indices, all element values",
 "A few index pairs of four shapes are tested; the no-op test compares a matrix with itself; minors are tested on the diagonal only.",
 ["matrix_trans.hpp","matrix_swap.hpp","matrix_inv.hpp"],[("transposing loop","matrix_trans.hpp"),("std::swap loops","matrix_swap.hpp"),("row/column skipping","matrix_inv.hpp")],["returned or modified matrix"])
p("C10","Concatenation keeps both operands whole, in order and in place",
 "Joining an i1 x j and an i2 x j matrix gives the (i1+i2) x j matrix with A above B, joining an i x j1 and an i x j2 matrix gives the i x (j1+j2) matrix with A left of B; for two n x n matrices concatenateV, concatenateH and the pair (vertical, horizontal) returned by concatenate agree with that. Every element of both operands appears exactly once, unchanged.",
 ["inputs"],"all shape pairs that can be joined, all element values",
 "One example per overload; the horizontal half of the square overload is never looked at.",
 ["matrix_concatenate.hpp"],[("copy loops with offset","matrix_concatenate.hpp")],["returned matrix or pair"])
p("C11","2-D convolution agrees with its definition in all three modes, up to the edges",
 "For every matrix shape and every 3x3 kernel, conv2_full(A,K) at (r,c) is the sum over a,b of K(a,b)*A(r-a,c-b) with zeros outside A; conv2 is its central part of A's size ('same' in Octave) and conv2_valid (shapes at least 3x3) the part computed without the zero border. Asymmetric kernels, non-square and one-row or one-column matrices are no exception.",
 ["inputs"],"all shapes, all kernels, all element values without overflow",
 "Two 5x5 matrices with two fully symmetric kernels are tested, which cannot tell convolution from correlation nor rows from columns.",
 ["matrix_conv2.hpp"],[("range test of neighbours","matrix_conv2.hpp"),("nine-term sums","matrix_conv2.hpp"),("border removal","matrix_conv2.hpp")],["returned matrix"])
p("C12","Histograms count every element exactly once",
 "histogram(A) has exactly the distinct values of A as keys, each with the number of elements equal to it, so the counts add up to the number of elements; cumulative_histogram(A) has the same keys, each with the number of elements not greater than it. This holds for every shape, including thousands of elements, and every totally ordered content.",
 ["inputs"],"all shapes and all contents without NaN",
 "One 3x3 histogram is tested; the cumulative one is not.",
 ["matrix_histogram.hpp"],[("map increment","matrix_histogram.hpp"),("running sum over ordered keys","matrix_histogram.hpp")],["returned map"])
p("C13","Mean, variance and standard deviation are the population statistics",
 "mean is the sum of the elements divided by their number (truncated toward zero in integer types), var the mean squared deviation from that mean (population variance, divisor = number of elements) and stddev its square root, for every shape and content of a floating type, within rounding relative to the size of the deviations: a large common offset does not spoil the variance. Negative integers have a correct mean too.",
 ["inputs"],"all shapes, element types (integers, small ones included, for the mean) and contents whose sums fit 64 bits (integers) or the type",
 "Two 3x3 matrices are tested with one-sided comparisons (result - expected < eps), which any too small result passes.",
 ["matrix_mean.hpp","matrix_var.hpp","matrix_stddev.hpp"],[("sum and division","matrix_mean.hpp"),("two-pass sum of squares","matrix_var.hpp"),("square root","matrix_stddev.hpp")],["returned scalar"])
p("C14","The median is the middle of the sorted elements",
 "For every shape and content, median returns the middle element of the sorted elements when their number is odd, and half the sum of the two middle ones when it is even (in the element type's arithmetic), whatever the order, sign or repetition of the elements; the matrix is not changed.",
 ["inputs"],"all shapes and all contents without NaN",
 "Two sorted 3x3 matrices with a one-sided comparison are tested; no even count, no unsorted content.",
 ["matrix_median.hpp"],[("copy, sort, middle","matrix_median.hpp")],["returned scalar"])
p("C15","compare and isIdentity decide exactly what they name",
 "compare(A, B, eps) is true exactly when at every position the elements are equal or differ by at most eps (a difference of exactly eps included), so a NaN never matches a number and one differing element anywhere makes it false. isIdentity(A) is true exactly when A has ones on the diagonal and zeros elsewhere, for every size and arithmetic element type, with no tolerance or conversion. compare decides integers of every type exactly too, also when their difference does not fit the type.",
 ["inputs"],"all shapes, all positions of a difference, all tolerances >= 0 and all element types",
 "Four float 2x2 pairs and four unsigned matrices are tested; the boundary and single differing positions are not.",
 ["matrix_utils.hpp","matrix_eye.hpp"],[("early return on difference","matrix_utils.hpp"),("comparison with eye","matrix_utils.hpp")],["returned bool"])
p("C16","Constructors give the stated shape with every element set",
 "fill<T,i,j>(x), zeros<T,i,j>(), ones<T,i,j>(), ones<i,j>() (unsigned; a single size means square) and eye<T,n>(x), default x = 1, return a matrix of exactly i rows and j columns (n x n) and of the stated element type in which every element has the stated value: x, 0, 1, and x on the diagonal with zeros elsewhere. Nothing depends on earlier calls or on memory contents.",
 ["inputs","histories"],"all shapes, element types and values; all earlier memory contents",
 "A handful of shapes is tested, ones only on square unsigned matrices.",
 ["matrix_fill.hpp","matrix_zeros.hpp","matrix_ones.hpp","matrix_eye.hpp"],[("array fill","matrix_fill.hpp"),("diagonal loop","matrix_eye.hpp")],["returned type and matrix"])
p("C17","print writes every element in order, row by row, and leaves the stream as it was",
 "print(A) writes to std::cout one line per row, containing the row's elements from left to right exactly as std::cout would format each of them under its current format flags, precision and locale (no field width being set), each followed by one space, and nothing else. Flags, precision and fill of the stream are the same afterwards, and A is unchanged.",
 ["inputs","histories"],"all shapes, element types, values and stream format states",
 "print has no test.",
 ["matrix_print.hpp"],[("nested loop","matrix_print.hpp"),("print_num, print_endl","matrix_print.hpp")],["bytes written to std::cout","stream state"])
p("C18","Results depend on the arguments alone, in any history of calls",
 "Every operation is a pure function of its arguments: whatever calls came before (other operations, other types and shapes, the same object with changed contents, calls that threw), the result is the same as that of a first call with those arguments. Arguments passed for reading are never modified (postfix ++ and -- included), also when the same object is passed twice or the result is assigned to an argument; only swap_rows and swap_cols change theirs.",
 ["histories","inputs"],"all sequences of operations on shared variables",
 "Each test makes a few isolated calls with fresh constants; a cached or left-over value shows only in particular sequences.",
 ["matrix_sum.hpp","matrix_mult.hpp","matrix_det.hpp","matrix_inv.hpp","matrix_pow.hpp","matrix_swap.hpp","matrix_trans.hpp","matrix_lu.hpp","matrix_cholesky.hpp","matrix_conv2.hpp","matrix_concatenate.hpp","matrix_median.hpp","matrix_histogram.hpp"],
 [("no mutable static state; by-value results and const references","matrix_mult.hpp"),("det works on its own copy","matrix_det.hpp")],["results and arguments after each call"])
p("C19","Calls running at the same time in different threads do not affect each other",
 "When threads call the operations at the same time, on shared read-only arguments or on their own, under every schedule each call returns what it returns when run alone. No call waits for another forever, and the calls do not race on memory: where two calls access the same memory and one writes it, something orders the two.",
 ["schedules"],"all interleavings of the memory accesses of concurrent calls of any operations",
 "All tests are single-threaded.",
 ["matrix_mult.hpp","matrix_det.hpp","matrix_inv.hpp","matrix_pow.hpp","matrix_lu.hpp","matrix_cholesky.hpp","matrix_conv2.hpp","matrix_median.hpp","matrix_histogram.hpp","matrix_strassen.hpp"],
 [("all scratch data is in automatic storage","matrix_det.hpp"),("automatic storage","matrix_lu.hpp")],["results of concurrent calls","unordered accesses to the same memory"])
p("C20","No operation allocates dynamic memory",
 "No operation allocates dynamic memory, for any size, element type or content, when it returns normally (histogram and cumulative_histogram, which return a std::map, and print, which writes to a stream, excepted). So every such call succeeds with the right result while no dynamic memory is available at all.",
 ["inputs","fault_sequences"],"all operations, sizes, types and contents; allocation failing at any point",
 "No test observes the allocator.",
 ["matrix_type.hpp","matrix_median.hpp","matrix_mult.hpp","matrix_det.hpp","matrix_inv.hpp","matrix_pow.hpp"],
 [("std::array storage everywhere","matrix_type.hpp"),("std::array scratch in median","matrix_median.hpp")],["calls of the allocation functions"])
p("C21","Every call stays inside its arrays and reads only initialised memory",
 "For every shape and every valid index argument, no operation indexes a row or column outside the matrix, reads or writes memory outside its arguments and results, reads an uninitialised element or returns one, or otherwise runs into undefined behaviour, as long as the scalar results fit the element type.",
 ["inputs"],"all operations, shapes (one row, one column, 1x1 included), valid indices and contents in range",
 "The tests run without sanitizers on few shapes, and over-reads inside the array of arrays go unnoticed.",
 ["matrix_conv2.hpp","matrix_inv.hpp","matrix_det.hpp","matrix_swap.hpp","matrix_trans.hpp","matrix_concatenate.hpp","matrix_abs.hpp","matrix_median.hpp"],
 [("loop bounds from template sizes","matrix_trans.hpp"),("range test of neighbours","matrix_conv2.hpp"),("value-initialised results","matrix_sum.hpp")],["bounds-checked array access, sanitizers"])
p("C22","Shapes are checked by the compiler: right shapes compile, wrong ones do not",
 "Each operation compiles for all operands of fitting shapes and its result type has the shape mathematics gives it (n x p for a product of n x m and m x p, m x n for a transpose, (n-1) x (n-1) for a minor, and so on). Operands whose shapes do not fit (inner dimensions of a product, unequal shapes of a sum, difference or comparison, a determinant, inverse, power, LU or Cholesky of a matrix that is not square, a kernel that is not 3x3, unequal shared dimension of a concatenation, strassen other than 2x2) do not compile.",
 ["programs"],"all programs that apply one operation to operands of any shapes",
 "A test that must not compile cannot be a unit test, and only a few shapes are instantiated by the tests.",
 ["matrix_mult.hpp","matrix_sum.hpp","matrix_det.hpp","matrix_inv.hpp","matrix_lu.hpp","matrix_conv2.hpp","matrix_concatenate.hpp","matrix_trans.hpp"],
 [("template parameters shared between operand types","matrix_mult.hpp"),("result types","matrix_concatenate.hpp")],["well-formedness and result type of each expression"])
p("C23","Including matrix.hpp is all it takes, from C++11 on and in many files at once",
 "A program that includes only matrix.hpp, once or repeatedly and in any number of source files linked together, compiles with every operation in use, with C++11 and every later standard, and links without duplicate or missing symbols. The operations give the same results under all of these configurations and optimisation levels.",
 ["configurations","programs"],"all language standards from C++11, both compilers, all numbers of translation units, all optimisation levels",
 "Every test is one translation unit that includes other headers first, compiled with one compiler, standard and optimisation level.",
 ["matrix.hpp","matrix_median.hpp","matrix_print.hpp","matrix_type.hpp"],
 [("aggregate header with include guards","matrix.hpp"),("templates and inline functions only","matrix_print.hpp")],["compiler and linker success, output of the program"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
