"""what each check claims (level, trust, assumptions); used by check.py and tools/gen_manifest.py"""
import json,os
VERIF=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TITLES={json.loads(l)['id']:json.loads(l)['title'] for l in open(os.path.join(VERIF,'properties.jsonl'))}
TRUST=['clang 18 -O1 -disable-llvm-passes and the opt passes sroa, early-cse, simplifycfg, instsimplify, loop-simplify, lcssa (source to verified text)',
 'the VC generator in /verif/vcg (symbolic executor over the IR, loop-effect summariser whose invariants are checked inductive, polynomial normaliser, positivity tactic)',
 'z3 4.x (python binding of python3-vt)','libstdc++ externals and libm as uninterpreted functions, the complex multiply/divide runtime as the exact complex formulas, memcmp, ostream output without effect']
ASSUME=['machine integers are treated as mathematical integers (no overflow of index arithmetic)','doubles are treated as exact reals: rounding, NaN, infinities and signed zeros are outside the proof',
 'distinct reference parameters do not alias unless the contract says so','operator new succeeds; exceptions are compiled out (-fno-exceptions) for the verified text','assert() is active, as in the build of the repository',
 'RefPointer operations are replaced at call sites by their contracts (proved separately in C01/C02 where listed)']
B='every small shape and seeded random ones, against naive oracles, with AddressSanitizer'
def P(id,level='proof',**k): return dict(title=TITLES[id],level=level,bounded=k.pop('bounded',B),**k)
PROPS={
 'C07':P('C07',note='elementwise arithmetic: every operator/operand-kind/aliasing configuration proved for all shapes'),
 'C08':P('C08',note='every comparison operator, all_of/any_of, which and logical operators proved for all shapes'),
 'C09':P('C09',note='index-list utilities proved for all lengths; linspace for all tensors and counts'),
 'C10':P('C10',note='permute proved for all ranks and dimensions'),
 'C12':P('C12',note='both forms proved for all tensors, dimensions and weights'),
 'C13':P('C13',note='partial trace, diagonals, matrix trace and diagonal matrices proved for all ranks'),
 'C16':P('C16',note='comparisons of doubles are exact reals (no NaN); sums are exact (rounding and the order of additions are not judged); mean of an empty tensor and along an empty dimension are not judged'),
 'C15':P('C15',note='change_dimension, squeeze and flatten proved for all tensors of every rank'),
 'C11':P('C11',note='foldin, kron and trace-like contractions proved per element'),
 'C03':P('C03',note='element access of ranks 1 to 6 (const, mutable, list form, raw) proved for all dimensions and index tuples; range-checked reads of Vector/Indices included'),
 'C04':P('C04',note='constructors, factories, fills, assignments and reshape proved for all dimensions'),
 'C14':P('C14',note='kron, kron2 and kron2_sum of matrices and vectors proved for all shapes'),
 'C05':P('C05',note='every concrete range (full, single, step, list; all sign cases) proved against the range contract; ProductRange proved against it with two opaque factors; slices of rank 1-6, real and complex, proved with opaque ranges'),
 'C06':P('C06',note='range contracts as for C05; assignments of scalars, tensors and slices to slices of rank 1-6, real and complex, exclusive and shared storage, sources aliasing the target'),
 'C01':P('C01',note='every RefPointer method is proved from its body (general number of holders, storage owned or external); the operations of vectors, index lists, tensors and sparse matrices are proved over those contracts with the storage unshared, shared, external and external shared: the result, and that whatever other containers hold is alive and unchanged. Pointers or references kept from before a copy are excluded. Random histories against a value model replay the contracts on the compiled library'),
 'C02':P('C02',note='the same contracts with a ledger of holders: after each operation every buffer has as many owners as containers reach it, is released exactly when nobody holds it, and no allocation is lost; external memory is written in place while unshared, never released. Random histories with tracked allocations replay them'),
 'C21':P('C21',note='sort and sort_indices of vectors, index lists: the result is the sorted rearrangement, positions are a permutation selecting it; std::sort itself is an assumed contract. NaN keys are outside (no order)'),
 'C17':P('C17',note='invariant (shape, offsets, increasing columns) of constructors, copies, assignment, identity matrices, random matrices, conversion to complex; element reads for every index pair, the dense form, construction from a dense matrix and from coordinates (loop invariants given with the contract; a finite sum may be taken by columns or by rows; std::vector, std::sort and std::unique by assumed contracts of libstdc++, with the code\'s own comparisons checked to be a strict weak order and an equivalence) proved for every matrix'),
 'C18':P('C18',note='negation, scaling, division, equality, rejected and empty operands proved for every well-formed matrix; sum, difference and product of two matrices proved entry by entry (loop with a given invariant: any entry (i0,j0), stored in none, one or both operands), with the result well formed'),
 'C19':P('C19',note='both products proved element by element as sums over stored entries, for dense operands of rank 1 and 2 and every well-formed matrix; unequal dimensions abort'),
 'C20':P('C20',note='real, imag, conj, to_complex, kron, kron2, transpose, adjoint, kron2_sum proved for every well-formed matrix (transpose and adjoint over the contracts of sparse_rows and of construction from coordinates; kron2_sum over those of kron, eye and +)'),
 'C27':P('C27',note="FFT calls proved to pass every requested line to FFTW exactly once, with the requested direction, on a fresh copy; FFTW's transform itself is an assumed contract; fftshift proved for every rank and size (over the contracts of ranges and slices of C05, C06)"),
 'C25':P('C25',note='solve, svd (every combination of requested factors, economic and full), eig_sym and eig (complex; real: pairs of conjugate values and vectors, loop with a given invariant), expm and solve_with_svd proved. The first four: one LAPACK call on a private copy of the argument with the right sizes, leading dimensions and options, results returned with the documented shapes; LAPACK itself by contract. expm: the quotient of the Pade polynomials of the argument divided by 2^j, squared j times, for every order and norm (over the contracts of the tensor operations; all matrices commute, so a matrix is denoted by a number). solve_with_svd: exactly the values above the tolerance are used, in all three factors. Accuracy in floating point is checked by the executable contracts only'),
 'C24':P('C24',note='the words and outputs of the 64-bit Mersenne Twister compiled here are proved bit for bit (vcg/bitvec.py: the same LLVM IR over bit vectors), seeds of the array form for keys of 1, 2, 5, 312 and 313 words; rand<real>(upper), not part of the property, is only run'),
 'C22':P('C22',note='round trip of numbers, tensors and sequences of any length (into a vector of any length), names, headers, missing records and other types proved over a ghost file of blocks, for every shape and content; order of creation, closing and renaming proved. std::string and the file streams are assumed contracts'),
 'C23':P('C23',note='words of a text (every text), parameters of a line, of a file (any number of lines) and of a command line, sample values, number of jobs, digits of a job number, lookup by name, run limits of every combination of options (symbolic numbers) and the lemma that digits determine the job; the command lines themselves are a list of combinations of options; std::string, streams, atof, atoi by contract', only_bounded=['conversion of digits (atof, atoi of libc) and other combinations of options']),
 'C26':P('C26',note='search of the blocks and the lists of their rows and columns (every loop of find_blocks), exchange of rows and columns for tall matrices, the cases that use the plain decomposition, and where the factors and values of every block are put (loop with a given invariant, over the contracts of svd, slices and sort_indices) proved for every matrix. Two steps are argued and not discharged: disjoint lists have no more members in all than there are rows or columns, and a sum over values does not depend on their order'),
}
NOT_APPLICABLE={'C28':'convergence of the iterations is a statement about real analysis and floating-point rounding (conjugate gradients, power iteration, Arnoldi inside ARPACK); no contract over mathematical reals within reach of the verifier decides it: in exact reals CGS terminates after n steps whatever its tolerance, and the eigenvalue solver is an external library'}
