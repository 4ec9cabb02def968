"""writes properties.jsonl (kept as code so that ids/anchors stay in one place)"""
import json
P = []


def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        a["state"] = state
    if observe:
        a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})


p("P01", "Hopping table always satisfies the conjugate relation",
  "After any sequence of additions, replacements, queries and removals of hopping terms, asking for the term (R, i, j) returns exactly what the last write to (R, i, j) or to its mirror (-R, j, i) implies, conjugated when asked from the mirror side, and every other term is unaffected. Exactly one term of each mirror pair is stored, so no hopping is ever counted twice. The same holds for overlap terms of a non-orthogonal basis.",
  ["inputs", "histories"], "all cell indices R, orbital pairs, complex energies and edit histories",
  "Tests exercise a few terms of one graphene model; the relation must hold for every index sign pattern and every history.",
  ["tbplas/builder/base.py", "tbplas/builder/primitive.py", "tbplas/builder/overlap.py"],
  [("canonical representative of a mirror pair", "tbplas/builder/base.py"),
   ("adding / getting / removing hopping terms", "tbplas/builder/base.py, tbplas/builder/primitive.py"),
   ("overlap terms", "tbplas/builder/overlap.py")],
  observe="get_hopping / hop_ind, hop_eng arrays")
p("P02", "Rejected or locked edits raise and leave the model unchanged",
  "An edit with an out-of-range orbital index, a diagonal hopping index, a coordinate of wrong length, or an edit of a locked model raises the documented exception. The model is then exactly what it was before the call: same orbitals, hopping terms, vacancies and derived arrays.",
  ["inputs", "histories"], "every mutating operation of primitive cells, supercells, inter-cell hoppings and hopping dictionaries, for all argument values and prior histories",
  "Tests check that an exception is raised for a few bad values, never that nothing was changed, nor all combinations of operation and illegal argument.",
  ["tbplas/builder/primitive.py", "tbplas/builder/super.py", "tbplas/builder/base.py", "tbplas/builder/overlap.py"],
  [("orbital and hopping index checks", "tbplas/builder/primitive.py"), ("lock checks", "tbplas/builder/base.py"),
   ("vacancy and inter-hopping checks", "tbplas/builder/super.py"), ("coordinate length checks", "tbplas/builder/base.py")],
  observe="exceptions and model state after the call")
p("P03", "Removing orbitals deletes exactly them and renumbers the rest in order",
  "Removing a set of orbitals from a primitive cell deletes exactly those orbitals and every hopping term that touches them; the surviving orbitals keep their order and attributes, and every surviving hopping term keeps its cell index and energy and connects the same physical orbitals under their new numbers. Trimming removes exactly the dangling orbitals, in primitive cells and in supercells: those with fewer than two hopping ends, where every hopping term has one end at each of the two orbitals it connects.",
  ["inputs", "histories"], "all cells, all sets of indices in any order, all hopping tables",
  "Renumbering errors appear only for particular index sets and hopping patterns.",
  ["tbplas/builder/primitive.py", "tbplas/builder/base.py", "tbplas/cython/super.pyx", "tbplas/builder/super.py"],
  [("orbital removal and hopping renumbering", "tbplas/builder/primitive.py, tbplas/builder/base.py"),
   ("trimming", "tbplas/builder/primitive.py, tbplas/cython/super.pyx, tbplas/builder/super.py")])
p("P04", "Derived arrays always reflect the current model",
  "Whatever sequence of edits was made to a primitive cell (adding, changing, removing orbitals and hopping terms, changing any energy or position to any other value), the orbital and hopping arrays obtained afterwards contain exactly the current orbitals and hopping terms, in order. No edit is ever missed by the caching.",
  ["histories", "inputs"], "all edit histories and all values, including values whose hashes collide",
  "Staleness only shows for particular histories and particular values; tests always rebuild from scratch or use benign values.",
  ["tbplas/builder/primitive.py", "tbplas/builder/base.py"],
  [("synchronisation of orbital arrays", "tbplas/builder/primitive.py"), ("synchronisation of hopping arrays", "tbplas/builder/primitive.py"),
   ("conversion of the hopping table to arrays", "tbplas/builder/base.py")])
p("P05", "Bloch Hamiltonians equal their definition and are Hermitian",
  "For every k-point and both phase conventions the dense Bloch Hamiltonian has, at (i, j), the on-site energy on the diagonal plus the sum over stored hopping terms of energy times exp(2 pi i k.R) (convention 2) or exp(2 pi i k.(R + r_j - r_i)) (convention 1), plus the conjugate terms, and is Hermitian. The sparse form has the same entries, for primitive cells and for samples, and overlap matrices obey the same rule with ones on the diagonal.",
  ["inputs"], "all models, hopping tables (repeated pairs included), k-points and conventions",
  "Tests compare bands of a few fixed models.",
  ["tbplas/cython/primitive.pyx", "tbplas/cython/sample.pyx", "tbplas/builder/primitive.py", "tbplas/builder/sample.py", "tbplas/diagonal/base.py", "tbplas/builder/overlap.py"],
  [("dense assembly", "tbplas/cython/primitive.pyx, tbplas/cython/sample.pyx"), ("sparse assembly", "tbplas/builder/primitive.py, tbplas/builder/sample.py")],
  observe="set_ham_dense / set_ham_csr")
p("P06", "Cell and supercell orbital numbering are inverse to each other",
  "In a supercell of any dimensions and any set of vacancies, the map from (cell a, b, c, orbital) to the supercell index is a bijection between the non-vacant orbitals and 0..N-1 that preserves lexicographic order, and the index-to-orbital table is its inverse. Vacant orbitals are never numbered and are reported as such; batch conversions agree with single conversions.",
  ["inputs", "configurations"], "all dimensions, orbital counts, vacancy sets and indices",
  "Tests use a few dimensions and vacancy lists; off-by-one errors in the vacancy search appear only for particular positions.",
  ["tbplas/cython/super.pyx", "tbplas/builder/super.py"],
  [("index conversion with and without vacancies", "tbplas/cython/super.pyx"), ("index table", "tbplas/cython/super.pyx")])
p("P07", "Index validation accepts exactly the legal orbital indices",
  "A batch of orbital indices in either numbering is accepted if and only if every index lies inside the supercell and none is a vacancy; otherwise the first illegal index, the kind of error and an offending component are reported.",
  ["inputs"], "all batches of indices, dimensions and vacancy sets",
  "Tests use a handful of illegal indices.",
  ["tbplas/cython/super.pyx", "tbplas/builder/super.py"],
  [("index array checks", "tbplas/cython/super.pyx"), ("error reporting", "tbplas/builder/super.py")])
p("P08", "Supercell hopping terms are exactly the replicated cell terms",
  "The hopping terms of a supercell are exactly one term per (cell, stored primitive term) whose end orbital, wrapped along periodic directions, lies inside the supercell and whose two ends are not vacancies, with the energy of the primitive term; terms leaving through an open boundary or touching a vacancy are dropped. The optimised construction for fully periodic terms and the general one give the same set, and a supercell without modification conserves the number of terms per cell along periodic directions.",
  ["inputs", "configurations"], "all dimensions, boundary conditions, vacancies and hopping tables",
  "Wrap-around, truncation and vacancy handling interact; tests cover a few graphene shapes.",
  ["tbplas/cython/super.pyx", "tbplas/builder/super.py"],
  [("wrapping and division of cell indices", "tbplas/cython/super.pyx"), ("splitting periodic and free terms", "tbplas/cython/super.pyx"),
   ("term construction", "tbplas/cython/super.pyx, tbplas/builder/super.py")])
p("P09", "Supercell positions, energies and hopping vectors are physical",
  "Every supercell orbital sits at the Cartesian position of its primitive orbital shifted by its cell, with that orbital's on-site energy, and every hopping term carries the true displacement from bra to ket including the supercell translations it wraps around. For terms that come from the primitive cell the displacement equals the primitive-cell displacement, wherever the cell is, and the same holds for hoppings between supercells.",
  ["inputs", "configurations"], "all lattices, orbital positions, dimensions, boundary conditions, vacancies and hopping terms",
  "Displacements are only visible through response functions; wrong wrap counts appear only for particular cells.",
  ["tbplas/cython/super.pyx", "tbplas/builder/super.py"],
  [("orbital positions and energies", "tbplas/cython/super.pyx"), ("hopping displacements", "tbplas/cython/super.pyx"),
   ("inter-cell displacements", "tbplas/cython/super.pyx, tbplas/builder/super.py")])
p("P10", "Hopping modifications override exactly the terms they name",
  "Adding or modifying hopping terms of a supercell replaces the energy of the named term (conjugated when the stored term is its mirror), appends the term when absent and leaves all other terms as generated, for any mix of overriding and new terms. The last modification of a term wins, the arrays keep their integer and complex types, and each physical term still occurs once.",
  ["inputs", "histories"], "all sets and orders of modifications on all supercells",
  "Only particular mixes (for example only overriding terms, or mirror terms) reveal errors.",
  ["tbplas/builder/super.py", "tbplas/cython/super.pyx", "tbplas/builder/base.py"],
  [("search for an equivalent term", "tbplas/cython/super.pyx"), ("merging modifications", "tbplas/builder/super.py")])
p("P11", "Sparse sample matrices hold each term and its conjugate exactly once",
  "For a sample made of any number of supercells and inter-supercell hoppings, the sparse Hamiltonian has the on-site energies on its diagonal and, for every stored term, its energy at (i, j) and the conjugate at (j, i), with orbital numbers shifted by the sizes of preceding supercells. The displacement arrays carry +d and -d at the same places, and the fast and safe constructions and column sorting describe the same matrix.",
  ["inputs", "configurations"], "all assemblies of supercells, inter-hoppings and orbital counts",
  "Index offsets and pointer bookkeeping fail only for particular row patterns.",
  ["tbplas/cython/sample.pyx", "tbplas/builder/sample.py"],
  [("index offsets and assembly", "tbplas/builder/sample.py"), ("CSR construction", "tbplas/cython/sample.pyx"), ("column sorting", "tbplas/cython/sample.pyx")])
p("P12", "A magnetic field only multiplies hoppings by the Peierls phase",
  "Applying a perpendicular field multiplies every hopping energy by exp(i*2*pi/phi0 * integral of A along the bond) for the documented gauge, and changes nothing else: moduli, on-site energies, positions and displacements are untouched, zero field is the identity, and opposite fields cancel. All documented gauges give the same flux per closed loop.",
  ["inputs"], "all samples, field strengths and gauges",
  "Tests use one gauge and compare final spectra loosely.",
  ["tbplas/cython/sample.pyx", "tbplas/builder/sample.py"],
  [("phase factors", "tbplas/cython/sample.pyx"), ("field interface", "tbplas/builder/sample.py")])
p("P13", "The rescaling factor bounds the spectrum",
  "The automatically chosen rescaling factor is the largest row sum of absolute values of the Hamiltonian, so every eigenvalue of the rescaled Hamiltonian lies in [-1, 1]. Rescaling with a given factor divides all on-site and hopping energies of the original Hamiltonian by that factor, however often it is applied.",
  ["inputs", "histories"], "all Hamiltonians (any sign of on-site energies) and all sequences of rescalings",
  "Tests use models with zero on-site energies.",
  ["tbplas/cython/sample.pyx", "tbplas/builder/sample.py"],
  [("row sums", "tbplas/cython/sample.pyx"), ("rescaling", "tbplas/builder/sample.py")])
p("P14", "Parallel runs distribute every task exactly once",
  "For any number of tasks and processes, the index ranges, list pieces and bounds given to the processes are disjoint, ordered and together cover every task exactly once, with sizes differing by at most one. Results of distributed calculations do not depend on the number of processes.",
  ["configurations", "inputs"], "all task counts and process counts, including more processes than tasks",
  "The test suite runs with one process.",
  ["tbplas/utils.py", "tbplas/parallel.py", "tbplas/diagonal/lindhard.py", "tbplas/diagonal/base.py", "tbplas/tbpm/solver.py"],
  [("task splitting", "tbplas/utils.py, tbplas/parallel.py"), ("reductions", "tbplas/parallel.py, tbplas/diagonal/lindhard.py"), ("sample distribution", "tbplas/tbpm/solver.py")])
p("P15", "Cell transformations preserve the physical model",
  "Extending, reshaping, spiralling, merging or re-latticing primitive cells yields a cell that represents the same physical orbitals and hopping terms: every term connects the same pair of (transformed) Cartesian positions with the same energy, orbitals and terms are multiplied exactly by the volume ratio, on-site energies and labels are carried over, and argument cells keep their physical content. Opening a boundary removes exactly the terms that cross it, and neighbour searches return exactly the pairs of distinct positions within the cutoff.",
  ["inputs", "configurations"], "all cells, extension dimensions, lattice transformations, merge lists and cutoffs",
  "Tests compare bands for one or two shapes.",
  ["tbplas/builder/advanced.py", "tbplas/builder/primitive.py", "tbplas/builder/base.py"],
  [("extension and reshaping", "tbplas/builder/advanced.py"), ("merging", "tbplas/builder/advanced.py"), ("neighbour search", "tbplas/builder/advanced.py"), ("open boundaries and lattice changes", "tbplas/builder/primitive.py")])
p("P16", "Slater-Koster integrals are Hermitian and rotation consistent",
  "For all s, p, d orbital pairs, all bond vectors and all parameters, the two-centre integral from i to j along r equals the published table and is the conjugate of the one from j to i along -r with the corresponding parameters (conjugate parameters; real ones where one parameter set serves both directions), scales linearly in the parameters, does not depend on the length of r, and the integrals rotate as the orbitals do.",
  ["inputs"], "all 81 label pairs, directions and parameters",
  "Tests use a few directions; a wrong coefficient in one of 81 formulas is invisible for special directions.",
  ["tbplas/builder/advanced.py"],
  [("two-centre formulas", "tbplas/builder/advanced.py")])
p("P17", "Spin-orbit coupling matrices are Hermitian L.S operators",
  "For every shell the spin-orbit matrix elements equal <i| L.S |j> in the real-orbital basis, form a Hermitian matrix, and the alternative implementations agree for all label and spin pairs.",
  ["inputs"], "all orbital label pairs and spin pairs",
  "Tests compare implementations for a subset and one sample matrix.",
  ["tbplas/builder/advanced.py"],
  [("L.S matrix elements", "tbplas/builder/advanced.py")])
p("P18", "Coordinate, lattice and k-point utilities are exact and invertible",
  "Conversions between Cartesian and fractional coordinates are inverse to each other for every non-singular lattice and origin, reciprocal vectors satisfy a_i.b_j = 2 pi delta_ij, volumes equal the triple product, lattice vectors built from lengths and angles reproduce them, and rotations preserve lengths and angles. Meshes contain each grid point once and k-paths contain every requested point, with end points exact and increasing distances.",
  ["inputs"], "all non-singular lattices, coordinates, angles, meshes and paths",
  "Tests use one or two lattices.",
  ["tbplas/base/lattice.py", "tbplas/base/kpoints.py"],
  [("coordinate conversions", "tbplas/base/lattice.py"), ("meshes and paths", "tbplas/base/kpoints.py")])
p("P19", "Momentum transfer maps the k-mesh onto itself exactly",
  "On a regular k-mesh the map from k to k+q is the permutation that adds q modulo the mesh, the flattened index of a k-point and its grid coordinates determine each other, and fractional or Cartesian q coordinates correspond to their grid indices. Wrapping brings every grid index or fractional coordinate into the first cell without changing it modulo a period.",
  ["inputs", "configurations"], "all mesh sizes and q-points, negative ones included",
  "Tests use small meshes and positive q.",
  ["tbplas/cython/lindhard.pyx", "tbplas/diagonal/lindhard.py"],
  [("k+q map and grid", "tbplas/cython/lindhard.pyx"), ("grid conversions", "tbplas/diagonal/lindhard.py")])
p("P20", "Response functions equal the Kubo-Lindhard sums",
  "Polarisation and conductivity kernels evaluate, for every set of energies, wave functions, mesh, q and frequency, exactly the documented sum over k-points and band pairs of occupation difference times squared matrix element over energy denominator; the two implementations agree and results do not depend on the loop order.",
  ["inputs"], "all energies, wave functions, k+q maps, frequencies and broadenings",
  "Tests compare end results for graphene on a coarse mesh.",
  ["tbplas/cython/lindhard.pyx", "tbplas/fortran/lindhard.f90", "tbplas/diagonal/lindhard.py"],
  [("matrix elements", "tbplas/cython/lindhard.pyx, tbplas/fortran/lindhard.f90"), ("frequency sums", "tbplas/cython/lindhard.pyx, tbplas/fortran/lindhard.f90")])
p("P21", "TBPM propagation applies the sparse Hamiltonian by its recursion",
  "Each sparse product computes a*H*x, a*H*x + y or a*H*x + b*y of the given CSR matrix for every matrix and vector, and one propagation step or Fermi filter returns exactly the truncated Chebyshev sum with the given coefficients of the given (rescaled) Hamiltonian, in both time directions. The result does not depend on the number of threads.",
  ["inputs", "schedules"], "all CSR matrices, vectors, coefficient lists and thread counts",
  "Tests look at final densities of states with statistical noise.",
  ["tbplas/fortran/csr.F90", "tbplas/fortran/math.F90", "tbplas/fortran/propagation.f90"],
  [("sparse products", "tbplas/fortran/csr.F90"), ("Chebyshev recursion", "tbplas/fortran/propagation.f90")])
p("P22", "Spectral sums conserve states and follow their definitions",
  "Energies are placed on the requested grid, densities of states are the stated Gaussian or Lorentzian sums over k-points and bands weighted by the selected orbitals, spin textures are expectation values of the Pauli matrices in the documented orbital order, and topological crossing counts follow the stated rule. Results are the same whichever eigen-solver or process count is used.",
  ["inputs"], "all energies, weights, projections and grids",
  "Tests integrate one spectrum.",
  ["tbplas/diagonal/base.py", "tbplas/diagonal/z2.py", "tbplas/diagonal/magnetic.py"],
  [("DOS sums", "tbplas/diagonal/base.py"), ("crossing count", "tbplas/diagonal/z2.py"), ("spin expectation", "tbplas/diagonal/magnetic.py")])
p("P23", "Random-state averages converge to the exact spectrum",
  "With enough random samples and time steps, densities of states and conductivities from propagation converge to those from exact diagonalisation of the same sample.",
  ["inputs"], "all samples",
  "Statistical statement about a limit.",
  ["tbplas/tbpm/solver.py", "tbplas/tbpm/analysis.py", "tbplas/fortran/tbpm.f90", "tbplas/fortran/random.f90"],
  [("random states", "tbplas/fortran/random.f90"), ("correlation functions", "tbplas/fortran/tbpm.f90")])
p("P24", "TBPM correlation functions and analysis follow their definitions",
  "For every sparse Hamiltonian, seed and configuration the TBPM correlation functions (DOS, LDOS, AC conductivity, dynamical polarisation, DC conductivity, quasi-eigenstates, Hall moments, Haydock LDOS) are the documented inner products of propagated or filtered random states, averaged over the samples, for every time step from the first to the last. The analysis functions return the documented transforms of them: window, prefactor, normalisation and energy grid. Nothing depends on the number of threads.",
  ["inputs", "configurations", "schedules"], "all Hamiltonians, seeds, sample counts, time steps, windows, orbitals and thread counts",
  "Tests only plot or integrate noisy spectra; a wrong step, sign or prefactor passes.",
  ["tbplas/fortran/tbpm.f90", "tbplas/fortran/funcs.f90", "tbplas/fortran/kpm.f90", "tbplas/fortran/analysis.f90", "tbplas/tbpm/solver.py", "tbplas/tbpm/analysis.py"],
  [("correlation functions", "tbplas/fortran/tbpm.f90"), ("moments and coefficients", "tbplas/fortran/kpm.f90, tbplas/fortran/funcs.f90"), ("transforms", "tbplas/tbpm/analysis.py, tbplas/fortran/analysis.f90")])

if __name__ == "__main__":
    with open("/verif/properties.jsonl", "w") as f:
        for q in P:
            f.write(json.dumps(q) + "\n")
    for q in P:
        assert len(q["title"]) <= 80, q["id"]
