#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the list stays consistent)."""
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=(),observe=(),hook=None):
    assert len(title)<=80,(id,len(title))
    a=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech])
    if state: a['state']=[dict(name=n,meaning=m,where=w) for n,m,w in state]
    if observe: a['observe_at']=list(observe)
    a['hook_needed']=hook
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,anchors=a))
MPS='lib/mpslib/mps.py'; MF='lib/mpslib/mpsfunctions.py'; EN='lib/mpslib/engines.py'; HA='lib/mpslib/Hamiltonians.py'

p('C01','Moving the orthogonality centre never changes the represented state',
  'Shifting the centre bond of a finite matrix product state to any bond, any number of times and in any order, without truncation, leaves the represented many-body vector (including its norm and phase) unchanged. '
  'Every tensor the centre has moved over to the right is left-orthonormal, every tensor it has moved over to the left is right-orthonormal, and bond dimensions never grow. '
  'The Schmidt values reported for a bond are those of the represented (normalised) state across that bond, and the canonical Gamma-Lambda form describes the same normalised state, with these values on its bonds.',
  ['histories','inputs'],'every finite open-boundary state (any length, mixed local dimensions, real or complex, entangled, unnormalised) and every history of centre moves interleaved with the other state operations',
  'Tests call the centre move a handful of times on random normalised states of one length and compare the state with itself; move histories from unnormalised, summed or gate-updated states with complex entries are not sampled.',
  [MPS,MF],[('centre move','MPS.__position__'),('orthonormal factorisation','mpsfunctions.prepareTensor/prepareTruncate'),('centre tensor read-out','MPS.__tensor__/__absorbCenterMatrix__/tolist')],
  [('_tensors/_mat/_position/_Z','site tensors, bond matrix, centre bond, scalar prefactor','MPS')],['mps.tolist(), mps.pos, mps.D, mps.tensors, mps.getSchmidt'])

p('C02','State arithmetic is that of a vector space and never aliases its operands',
  'Adding, subtracting, negating, scaling, dividing and complex-conjugating finite matrix product states yields exactly the corresponding combination of the represented vectors, for real and complex scalars and whatever the centre positions of the operands. '
  'In-place variants change only their target, and the other variants change no operand; later changes of a result never show up in an operand or the other way round. '
  'Bond dimensions of a sum are the sums of those of the operands (1 at open boundaries).',
  ['histories','inputs'],'all expression sequences over several live states, with interleaved centre moves, gates and scalings',
  'Tests add/subtract two freshly built random states and check a norm; they never mix centre positions and prefactors, never check operands afterwards, and never use negation or conjugation.',
  [MPS,MF],[('operators','MPS.__add__/__iadd__/__sub__/__mul__/__imul__/__rmul__/__truediv__/__neg__/conj'),('direct-sum construction','mpsfunctions.addMPS/directsum')])

p('C03','The overlap is the inner product of the represented states',
  'The overlap of two open-boundary states equals the inner product of the represented vectors, linear in the state it is called on and conjugate-linear in its argument, including prefactors and centre matrices, for any pair of centre positions. '
  'Computing it changes neither state.',
  ['inputs','histories'],'all pairs of finite states of equal length reachable by construction, arithmetic, gates and centre moves',
  'Tests only use overlaps of a state with itself or with a copy, where conjugation, prefactor and centre errors cancel.',
  [MF,MPS],[('overlap contraction','mpsfunctions.overlap'),('entry point','MPS.dot')])

p('C04','Copies and saved files reproduce a state exactly and independently',
  'A copy of a state, and a state loaded from a file it was saved to, represent the same vector with the same centre position, boundary type, bond-dimension limit and data type as the original at the time of copying or saving. '
  'From then on the two evolve independently: no operation on either changes the other or the file. '
  'Saving and re-loading a simulation restores its state, operator and environments, so that continuing gives the same results.',
  ['histories'],'all histories interleaving copy, save, load (into a state of different size or history) and mutating operations',
  'There is no test of saving or loading at all, and copies are only used as left operands.',
  [MPS,EN],[('copy','MPS.__copy__'),('pickling','MPS.save/load'),('simulation save/load','Container.save/load')])

p('C05','Measured expectation values are exact for every operator and site choice',
  'For a finite state in canonical form, local expectation values, lists of them, products of operators on ordered (possibly repeated) sites, and products of parity-odd operators with Jordan-Wigner strings equal the exact expectation values of the represented state, including its squared norm. '
  'Matrix elements of local operators between two different states equal the exact matrix elements including both prefactors. '
  'Measuring never changes the state represented nor the centre position of local and list measurements.',
  ['inputs','histories'],'all finite states, local operators (non-hermitian, complex), site lists, string operators, mixed local dimensions, any centre position before the call',
  'No stable test measures anything but energies; correlations, strings, matrix elements and mixed local dimensions are never exercised.',
  [MPS,MF],[('local and list measurement','MPS.__measureLocal__/__measureList__, mpsfunctions.measureLocal'),('correlators','MPS.__measure__'),('matrix elements','MPS.__measureMatrixElementList__, mpsfunctions.matrixElementLocal'),('layer contraction','mpsfunctions.addLayer/addELayer')])

p('C06','Gate application acts on the represented state exactly',
  'Applying a one-site operator changes the represented vector exactly by that operator, including its norm. '
  'Applying a two-site gate with sufficient bond dimension yields the gate acting on the state, rescaled to the norm the state had before, and reports zero truncated weight; the sites away from the gate keep their canonical form and the centre ends between the two sites. '
  'With insufficient bond dimension the kept dimension never exceeds the limit, the largest Schmidt components are the ones kept, and the reported truncated weight is the sum of the squares of the discarded singular values.',
  ['inputs','histories'],'all states, all (non-unitary, complex, non-symmetric) gates, all sites, all limits, in any history of gates and centre moves',
  'Gates are only exercised by slow evolution tests (not in the stable set) with symmetric unitary-like gates, so index order, norms and truncation accounting are not discriminated.',
  [MPS],[('two-site gate','MPS.__applyTwoSiteGate__'),('one-site gate','MPS.__applyOneSiteGate__')])

p('C07','Truncation keeps the dominant Schmidt components and honours its limits',
  'Truncating a finite state to a bond dimension, or moving its centre with a bond-dimension limit or threshold, leaves no bond it has passed above the limit, keeps exactly the components with the largest Schmidt values and none at or below the threshold, and retains the norm of the state. '
  'A limit or threshold that removes nothing leaves the represented state unchanged. '
  'Afterwards the state is in canonical form.',
  ['inputs'],'all states with non-degenerate Schmidt spectra at the cut-off, all limits and thresholds, all cuts',
  'The test truncates one random state and checks only an overlap near one.',
  [MPS,MF],[('truncating sweep','MPS.__truncate__/__position__'),('truncated factorisation','mpsfunctions.prepareTruncate')])

p('C08','Constructors build exactly the state they are asked for',
  'Building a product state gives exactly the product of the given local vectors; building from a list of tensors (with or without a centre matrix) gives the contracted state up to normalisation to one; the all-ones and random constructors give normalised states with the requested length, local dimensions, data type and bond dimensions not above the requested one, and the zero constructor the zero vector. '
  'The inputs are copied, so that later changes of the given arrays or of the state do not affect each other, and a zero local vector is refused.',
  ['inputs'],'all lengths, uniform and mixed local dimensions, bond dimensions, real and complex data, open boundaries',
  'Tests construct random states of one shape and look at norms only.',
  [MPS,MF],[('constructors','MPS.random/zeros/ones/fromList/productState/__init__'),('tensor initialisation','mpsfunctions.MPSinitializer')])

p('C09','Hamiltonian operators equal the documented sum of local terms',
  'The matrix product operator of every spin and fermion lattice model (transverse Ising in both forms, XXZ, flipped XXZ, the two-spin ladder, spinless fermions and the Hubbard chain) contracts, for open boundaries, to exactly the documented sum of on-site and nearest-neighbour terms with site-dependent couplings. '
  'For infinite boundaries, repeating the unit cell and closing it with the boundary vectors gives the same sum on the corresponding chain, including the bond between unit cells. '
  'Fermionic hopping carries the Jordan-Wigner signs under which the modes anticommute.',
  ['inputs','configurations'],'all lengths, site-dependent couplings (distinct, zero, negative), both boundary types',
  'Stable tests use uniform couplings of the XXZ, SIAM and Ising models only and compare ground-state energies, which are insensitive to many sign, site and boundary errors; most models are never instantiated.',
  [HA],[('models','TFI, TFI_2, XXZ, XXZflipped, JessHamiltonian, SpinlessFermions, HubbardChain'),('operator container','MPO')])

p('C10','Two-site gates are exponentials of local terms that sum to the Hamiltonian',
  'The two-site gate of a neighbouring pair is the exponential of the time step times a two-site operator, with zero step giving the identity and consecutive steps composing. '
  'For every open-boundary chain these two-site operators, summed over all neighbouring pairs, give the whole Hamiltonian, each on-site and boundary term exactly once; asking for the pair in either order, or for a chain of two sites, works the same way.',
  ['inputs','configurations'],'all models, lengths from two sites, site-dependent couplings, real and imaginary time steps',
  'Evolution tests are outside the stable set and use uniform translation-invariant chains.',
  [HA],[('gate construction','MPO.twoSiteHamiltonian/twoSiteGate')])

p('C11','Operator environments give the same matrix element from every cut',
  'Contracting a bra, an operator and a ket from the left, from the right, or from both sides with an effective one-site or zero-site product at any cut gives the same value: the exact matrix element of the operator between the represented states. '
  'Effective-Hamiltonian products equal the projection of the exact operator on the local tensor, and multiplying an operator into a state represents the operator acting on the state.',
  ['inputs'],'all states, operators with arbitrary (non-symmetric, complex) tensors, all cuts, different bra and ket bond dimensions',
  'Tests never compare environments with dense contraction; hermitian real operators hide conjugation and transposition errors.',
  [MF,MPS],[('environment steps','mpsfunctions.addLayer/addELayer/initializeLayer/getL/getR'),('effective products','mpsfunctions.HAproduct*'),('operator application','mpsfunctions.applyMPO, MPS.applyMPO')])

p('C12','Engine environments always match the tensors they were built from',
  'During every sweep of a finite ground-state search or time evolution, and after every public repositioning of the engine, the left and right operator environments used for a local update equal those recomputed from the current tensors on that side. '
  'Repositioning never changes the represented state, and local measurements made through the engine agree with those on its state.',
  ['histories','schedules'],'all sequences of engine repositioning, sweeps in both directions, one-site and two-site updates, re-started simulations',
  'Energies converge even with slightly stale environments, and tests look at converged energies only.',
  [EN],[('environment update','Container.position/update'),('sweep loops','DMRGengine.__simulate__/__simulateTwoSite__, TimeEvolutionEngine.__doTDVP__')],
  [('_L/_R','environments per cut','Container')])

p('C13','Ground-state search is variational, monotone and self-consistent',
  'The energy reported by a finite ground-state search, one-site or two-site and with any local solver, is never below the exact ground-state energy and, without truncation, is the expectation value of the Hamiltonian in the normalised state left behind. '
  'Without truncation, local energies never rise from one update to the next within solver tolerance, and with sufficient bond dimension the search reaches the exact ground-state energy. '
  'Every sweep optimises every site, in order, and bond dimensions never exceed the limit.',
  ['inputs','configurations','schedules'],'all models, couplings, lengths, bond dimensions, solvers, sweep counts and starting states (not orthogonal to the ground state)',
  'Tests check converged energies of two models for two solvers with one configuration.',
  [EN,MF],[('search','DMRGengine.simulate/simulateTwoSite/optimize'),('local solvers','mpsfunctions.eigsh/lanczos/lobpcg')])

p('C14','Trotter evolution applies each bond gate for exactly the elapsed time',
  'A second-order gate evolution over any number of steps evolves every bond by exactly the total time, using half steps of the even bonds at the beginning and end and at checkpoints and full steps otherwise, so that runs split into several calls or interrupted by checkpoints give the same state as one run. '
  'The reported time (the accumulated real-time part of the steps) and iteration count equal the accumulated steps whatever the verbosity, zero steps change nothing, and the reported truncated weight is the accumulated discarded weight.',
  ['schedules','histories'],'all chain lengths, step counts, checkpoint intervals, splits into consecutive calls, real and imaginary time',
  'The evolution tests are too slow for the stable set and use one step pattern; an extra or missing half step changes results by less than their tolerances.',
  [EN,MPS],[('gate evolution','TimeEvolutionEngine.__doTEBD__/applyEven/applyOdd')])

p('C15','Variational time evolution is exact at full bond dimension and reversible',
  'At a bond dimension that represents the whole space, variational time evolution equals the exact evolution under the Hamiltonian within integration tolerance; norm and energy are conserved for real time, and evolving forward and then backward returns the initial state at any bond dimension. '
  'One step evolves every site forward and every inner bond backward by exactly the time step in two symmetric half sweeps, and the reported time equals the real-time part of the accumulated steps whatever the verbosity and number of calls.',
  ['inputs','schedules'],'all models, states, lengths, real time steps and imaginary-time steps, step counts, local integrators',
  'The time-evolution test is not in the stable set, and compares one observable of one model with one integrator.',
  [EN,MF],[('two half sweeps','TimeEvolutionEngine.__doTDVP__'),('local integrators','mpsfunctions.evolveTensor*/evolveMatrix*')])

p('C16','Checkpoint files are written, retained and resumable as configured',
  'A run with checkpoint interval k writes a checkpoint exactly after every k-th step counted since the engine was created (for searches: every k-th sweep of the call), and when checkpoints are not to be kept only the latest of the call remains, the previous one being removed only once the new one is written. '
  'A checkpoint is a complete snapshot: loading it into a fresh engine and continuing for the remaining steps gives the same state and energy as the uninterrupted run, and files of other runs are never touched.',
  ['histories','crash_points'],'all step counts, intervals, keep flags, repeated runs on one engine, stopping after any checkpoint',
  'No test writes or reads a checkpoint.',
  [EN],[('checkpointing','TimeEvolutionEngine.__doTEBD__/__doTDVP__, DMRGengine.__simulate__'),('container files','Container.save/load')])

p('C17','Regauging an infinite state preserves its physics',
  'Bringing an infinite uniform or unit-cell state into left, right or symmetric gauge, or into canonical form, leaves every normalised expectation value and correlation unchanged, whatever invertible gauge transformation was applied beforehand. '
  'The result satisfies the orthonormality conditions of the requested gauge including the closing bond of the unit cell, and the Schmidt values are gauge-independent, sorted and normalised. '
  'Truncating such a state keeps the largest Schmidt values on every bond.',
  ['inputs'],'all injective unit cells (length one and more), bond dimensions, real and complex tensors, gauge transformations',
  'Tests check orthonormality of the result for random tensors but never that expectation values are unchanged, nor gauge independence.',
  [MF,MPS],[('unit-cell regauging','mpsfunctions.regaugeIMPS/truncateMPS/canonizeMPS, MPS.regauge/canonize/truncate'),('uniform regauging','mpsfunctions.regauge')])

p('C18','Transfer operators and their steady states are exact',
  'Applying a (mixed, unit-cell or generalised) transfer operator to a boundary matrix from the left or the right equals the explicit contraction with the conjugated tensor in the lower layer, composition over a unit cell equals the product of single-site steps, and left and right actions are adjoint to each other. '
  'The dominant eigenpair returned satisfies the eigenvalue equation, is normalised and hermitian non-negative, and the linear solvers for infinite environments return a solution of their equation with the divergent part projected out.',
  ['inputs'],'all tensors (rectangular, complex), directions, unit-cell lengths, inhomogeneities',
  'Tests check eigenpairs of square random tensors and compare real with complex solutions, not against explicit contraction.',
  [MF],[('transfer operators','mpsfunctions.TransferOperator/MixedTransferOperator/GeneralizedMatrixVectorProduct/UnitcellTransferOperator'),('steady states','mpsfunctions.TMeigs/UnitcellTMeigs'),('linear solvers','mpsfunctions.RENORMBLOCKHAMGMRES/TDVPGMRES')])

p('C19','Infinite ground-state searches converge to the exact energy per site',
  'On exactly solvable infinite chains the infinite-system search with growing unit cells and the variational uniform search converge to the exact energy per site and leave a state in canonical form whose measured energy density is the reported one. '
  'Inserting a unit cell never loses, duplicates or reorders a site coupling: the state keeps its length, and environments describe the chain already absorbed.',
  ['inputs','configurations'],'all exactly solvable couplings tried, unit-cell lengths, bond dimensions, one-site and two-site updates',
  'One converged energy of one uniform model is tested for the uniform search; the growing search is not in the stable set.',
  [EN,MF],[('unit-cell insertion','IDMRGengine.__update__'),('uniform search','VUMPSengine.__doStep__/__simulate__')])

p('C20','Krylov solver and propagator agree with the exact matrix problem',
  'The Lanczos solver returns eigenvalue estimates that are never below the true lowest eigenvalue of a hermitian operator, returns a normalised vector satisfying the eigenvalue equation once converged, and terminates early on an invariant subspace instead of producing invalid numbers. '
  'The Krylov propagator equals the exact exponential whenever the Krylov space is exhausted, preserves the norm for imaginary steps and leaves its input unchanged.',
  ['inputs'],'all hermitian operators (degenerate, with invariant subspaces), start vectors, krylov dimensions, check intervals, real and imaginary steps',
  'Only used inside ground-state searches on generic operators; invariant subspaces and exhaustion are never reached.',
  ['lib/Lanczos/LanczosEngine.py'],[('solver','LanczosEngine.__simulate__'),('propagator','LanczosTimeEvolution.__doStep__')])

p('C21','Tensor-network contraction is independent of order and equals the index sum',
  'Contracting a list of tensors with index labels equals the explicit sum over all positive labels with the negative labels left open in descending order, for any contraction order, including traces, outer products and disconnected parts. '
  'It never modifies the tensors, label lists or order lists passed in, and inconsistent labels are refused.',
  ['inputs','programs'],'all networks of up to a few tensors, label assignments, contraction orders and output orders',
  'No test of it exists; it is used with about forty fixed patterns of connected networks.',
  ['lib/ncon/ncon.py'],[('contraction','ncon'),('consistency checks','do_check_indices')])

p('C22','Basis and step-control utilities follow their definitions',
  'Bit operations on 64-bit words change or read exactly the addressed bit, and the fixed-filling basis lists each configuration with the given number of set bits exactly once in ascending order, for any number of sites the words can hold. '
  'The step-size controller divides the step by the factor and deepens the rescaling when the gradient norm grows beyond tolerance, and otherwise restores, one level per completed round of accepted steps, the step scheduled for the current gradient norm. '
  'The conjugate-gradient weight is zero outside the configured gradient-norm window, on the first step, on growing gradients, for the configured number of steepest-descent steps after a restart and at every scheduled reset, and otherwise the squared ratio of successive norms.',
  ['inputs','histories'],'all words, positions and fillings in small bounds and at the word size; all controller histories over small grids of norms, thresholds and reset intervals',
  'No test of any utility exists.',
  ['lib/utils/binaryoperations.py','lib/utils/utilities.py'],[('bits','flipBit/setBit/unsetBit/getBit/binarybasis'),('step control','determineNewStepsize'),('conjugate gradient','determineNonLinearCGBeta')])

out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'properties.jsonl')
open(out,'w').write(''.join(json.dumps(x)+'\n' for x in P))
print(len(P))
