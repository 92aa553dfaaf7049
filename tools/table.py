PS = "CADMium/psgrid/"

prop("C01", "Mesh points and metric are those of prolate spheroidal coordinates",
     "For every block count, block size, half bond length and box size, the grid holds (NP-1)*NM+1 points per "
     "direction at the cell midpoints of the angular range [0,pi] and the radial range [0,L], stored with the angular "
     "index running fastest, and its Cartesian positions, scale factors, volume element and angular-momentum "
     "potential equal the prolate spheroidal expressions for nuclei at z=-a and z=+a at every point. The metric is "
     "symmetric under exchange of the nuclei, scales with the half bond length by its dimension, and the ghost "
     "coordinates continue the radial mesh beyond the box by the stencil half-width. Building a grid does not depend on "
     "or disturb any other grid, and initialising it again leaves it the same.",
     ["inputs", "configurations"], "every mesh size, block size, half bond length, box size and central stencil",
     "The tests compare one 4x4-block Li2 mesh against stored numbers; non-square meshes and other sizes are not reached.",
     [PS + "initialize.py", PS + "operators.py", PS + "psgrid.py"],
     [("coordinate and metric construction", PS + "initialize.py"), ("scale factors", PS + "operators.py")],
     "property-based testing (Hypothesis) against an independent mesh model",
     "Compared point by point with a separately written mesh model to 1e-9.")

prop("C02", "Integration is the composite block rule of the volume element",
     "Integrating a field returns 2*pi times the double sum of field, volume element and composite Newton-Cotes "
     "weights (with half-cell end corrections that assume the weighted integrand vanishes on the boundary), so "
     "integrands that are polynomial of degree below the block size within every block integrate exactly and "
     "closed-form integrals of decaying functions are reproduced, for every mesh including single-block and non-square "
     "ones. The integral is linear, unchanged by exchange of the nuclei, and does not modify its argument. A field with "
     "two spin columns yields the integral of each column separately.",
     ["inputs", "configurations"], "every mesh (block sizes 2..9, any block counts) and every real field",
     "No test integrates anything except through a few converged energies on square even-block meshes.",
     ["CADMium/common/NC.py", PS + "integrate.py", PS + "initialize.py"],
     [("1-D weights", "CADMium/common/NC.py"), ("2-D sum", PS + "integrate.py")],
     "property-based testing (Hypothesis) against exact rational weights and closed-form integrals",
     "Single-column (n,1) fields are a known finding; any other wrong value for them is still a violation.")

prop("C03", "Finite-difference weights and 1-D derivative operators are exact stencils",
     "For every set of distinct integer offsets and derivative order the coefficient routine returns the weights that "
     "differentiate all polynomials up to the stencil size exactly. The angular and radial derivative operators of a "
     "grid, for even and odd functions, are the central stencil with mirror-image continuation of the stated parity at "
     "both angular ends and the inner radial end and zero beyond the outer radial end, and the outer-boundary blocks "
     "supply precisely the missing contribution of values beyond the box.",
     ["inputs", "configurations"], "every stencil, derivative order, mesh size and field",
     "Tests compare one stored 9-point mesh of operators; other stencil widths and non-square meshes are unreached.",
     ["CADMium/common/finite_difference_coefficients.py", PS + "finite_difference_1d.py", PS + "finite_difference_2d.py"],
     [("coefficients", "CADMium/common/finite_difference_coefficients.py"),
      ("boundary reflections", PS + "finite_difference_1d.py"), ("boundary reflections", PS + "finite_difference_2d.py")],
     "property-based testing (Hypothesis) against exact rational stencils and dispersion relations",
     "Offsets within -6..6, up to 9 points; central stencils of half-width 1..5.")

prop("C04", "Laplacian, gradient and divergence operators discretise their differentials",
     "On every mesh the even and odd Laplacian operators, the gradient components, the divergence components and the "
     "outer-boundary Laplacian block applied to any field equal the prolate spheroidal differential expressions "
     "assembled from the one-dimensional stencils, so that smooth functions are differentiated to discretisation accuracy. "
     "They commute with exchange of the nuclei, the angular components changing sign.",
     ["inputs", "configurations"], "every mesh and field of the stated parity",
     "Tests compare stored matrices of one small Li2 mesh with equal angular and radial sizes.",
     [PS + "operators.py"], [("Kronecker assembly", PS + "operators.py")],
     "property-based testing (Hypothesis): differential against a reference assembly plus closed-form derivatives",
     "Rough fields to 1e-9 of the operator norm; smooth functions to discretisation error away from the outer boundary.")

prop("C05", "Gradient contractions and reduced gradient respect spin",
     "The squared-gradient routine returns |grad n|^2 for one density column and (aa, ab, bb) contractions for two, so that "
     "aa+2ab+bb is the squared gradient of the total, exchanging the spins exchanges aa and bb, and exchange of the nuclei "
     "or rescaling the density acts as on the exact quantity; more than two columns are rejected. The reduced density "
     "gradient of each spin equals that of an unpolarised density of twice that spin, is invariant under uniform scaling "
     "of coordinates and reproduces the closed form for exponentials.",
     ["inputs", "configurations"], "every mesh and every one- or two-column positive density",
     "No test calls either routine directly; spin-polarised gradient functionals are not exercised at all.",
     [PS + "sigma.py", PS + "reduced_grad.py"], [("contractions", PS + "sigma.py"), ("spin scaling", PS + "reduced_grad.py")],
     "property-based testing (Hypothesis) against a reference gradient, metamorphic and closed-form relations",
     "Compared where the density is positive.")

prop("C06", "Mirror, spin-flip, 2-D view and plot arrays keep every value at its place",
     "Exchanging the nuclei maps the value at (y,z) to (y,-z) for every column of a field, is its own inverse and keeps the "
     "layout; flipping spins reverses the spin columns and nothing else; the two-dimensional view indexes by angle, radius "
     "and column. The full-plane plotting arrays place at each (X,Z) the field value of the mesh point (|X|,Z), times the "
     "requested parity on the X<0 side, and the bond-axis profile lists ascending positions each with the value of a mesh "
     "point at that position, including the whole innermost shell. None of these modifies its argument.",
     ["inputs", "configurations"], "every mesh, every field layout with one or more columns",
     "Tests do not call these helpers apart from mirror-symmetric runs of equal-sized meshes.",
     [PS + "mirror.py", PS + "spinflip.py", PS + "square.py", PS + "plotter.py", PS + "psgrid.py"],
     [("column-major reshape", PS + "square.py"), ("reversal of the angular index", PS + "mirror.py")],
     "property-based testing (Hypothesis) against index arithmetic and nearest-point lookup",
     "Exact equality; plotting arrays checked for single-column fields.")

prop("C07", "The Hartree potential solves Poisson's equation with multipole boundary values",
     "For every density the Hartree potential satisfies the discrete Poisson equation with the multipole expansion "
     "(orders 0 to 7) of the total density as values beyond the box, which requires the stored triangular factors to "
     "multiply back to the Laplacian. It is linear in the density, depends only on the total density and is returned once per "
     "spin column, follows exchange of the nuclei and uniform scaling, and reproduces closed-form potentials and energies of "
     "exponential charge clouds; the energy per particle is half the potential. The density passed in is not changed.",
     ["inputs", "configurations"], "every mesh and every one- or two-column density",
     "Tests see the Hartree term only inside a few converged total energies.",
     ["CADMium/hartree/hartree.py", PS + "factorize_laplacian.py", PS + "operators.py"],
     [("multipole boundary source", "CADMium/hartree/hartree.py"), ("sparse LU with permutations undone", PS + "factorize_laplacian.py")],
     "property-based testing (Hypothesis): residual oracle, linearity/metamorphic relations, closed forms",
     "Residual to 1e-6..1e-8 of the largest source term; closed forms to 4e-3.")

prop("C08", "Nuclear attraction is -Za/rA - Zb/rB with A at z=-a and B at z=+a",
     "At every mesh point the nuclear potential equals -Za/rA - Zb/rB with nucleus A at z=-a and B at z=+a, for any charges "
     "including zero. A molecule stores it in every spin column (averaged with its mirror image when symmetrisation is "
     "requested); in a partitioned molecule each fragment, ensemble members included, feels only its own nucleus while the "
     "molecular external potential is the sum of both.",
     ["inputs", "configurations"], "every mesh, pair of charges, spin treatment and fragment ensemble",
     "Tests use equal integer charges almost everywhere, which hides which nucleus sits where.",
     ["CADMium/common/coulomb.py", "CADMium/kohnsham/kohnsham.py", "CADMium/partition/partition.py"],
     [("formula", "CADMium/common/coulomb.py"), ("distribution to spins", "CADMium/kohnsham/kohnsham.py")],
     "property-based testing (Hypothesis) against distances",
     "Relative agreement 1e-9 at every point.")

SOL = "CADMium/pssolver/"
KSD = "CADMium/kohnsham/"
PAR = "CADMium/partition/"

prop("C09", "Orbital solver returns the lowest levels and orbitals of its Hamiltonian",
     "For every mesh, potential, angular momentum m and number of orbitals, the solver's Hamiltonian is minus half the Laplacian of "
     "the parity of m plus m^2/(2 rho^2) plus the potential, and it returns in ascending order the levels nearest above its search "
     "energy with their orbitals, without changing the potential. Levels follow a constant shift of the potential, "
     "exchange of the nuclei and uniform scaling; with symmetrisation a homonuclear potential gives the same levels and orbitals of pure "
     "parity. One-electron atoms and H2+ reproduce their exact energies; a solver asked for no orbitals reports a level below everything.",
     ["inputs", "configurations"], "every mesh, potential, angular momentum and number of orbitals",
     "Tests check a handful of s and p levels on square even-order meshes; m >= 2, other parities and asymmetric potentials are unreached.",
     [SOL + "pssolver.py", SOL + "calc_orbitals.py"],
     [("Hamiltonian", SOL + "pssolver.py"), ("shift-invert eigensolver", SOL + "calc_orbitals.py")],
     "property-based testing (Hypothesis): differential against dense eigen-decomposition, metamorphic relations, exact energies",
     "Search energy below the wanted levels, as every caller arranges; cases with nearly equal levels are skipped and counted.")

prop("C10", "Orbitals are occupied by capacity, with whole or fractional last orbital",
     "For every angular momentum, spin treatment and electron number, orbitals are filled in order to a capacity of 2 for m=0 and 4 for "
     "m>0 (half of that per spin in polarised calculations); with the fractional option the last orbital holds the remainder, without it a "
     "remainder is dropped. Density, sum of levels, potential and kinetic energy, kinetic energy density and frontier level all follow "
     "from these occupations with orbitals normalised by the grid's integration, whatever the norm of the stored orbitals. The electron "
     "number -1 fills every orbital, and normalising scales each orbital to its capacity.",
     ["inputs", "configurations"], "every angular momentum, spin treatment, electron number, option and orbital set",
     "Tests occupy whole s and p shells in one or two atoms; partial filling of m>0 blocks and several orbitals per block are unreached.",
     [SOL + "pssolver.py", SOL + "calc_density.py", SOL + "calc_energy.py", SOL + "calc_ked_WFI.py", SOL + "get_homo.py",
      SOL + "normalize_orbitals.py"],
     [("density", SOL + "calc_density.py"), ("energies", SOL + "calc_energy.py"), ("frontier level", SOL + "get_homo.py")],
     "property-based testing (Hypothesis) against an explicit occupation list", "Arbitrary orbitals and levels are handed to the real objects.")

prop("C11", "Iterative refinement ends at the directly computed orbitals",
     "When the potential changes by a small smooth amount, repeated refinement steps bring levels and orbitals, for every angular momentum and "
     "number of orbitals and with or without the iterative linear solver, to those of a direct solution, ordered by level and normalised "
     "as after a direct solution. A converged set is a fixed point, and levels that cross are still returned in ascending order, each orbital once.",
     ["inputs", "histories"], "every mesh, angular momentum, number of orbitals and small potential change",
     "Tests run refinement only inside SCF cycles of single-orbital blocks.",
     [SOL + "iter_orbitals.py", SOL + "calc_orbitals.py"], [("refinement step", SOL + "iter_orbitals.py")],
     "property-based testing (Hypothesis): refinement histories against dense eigen-decomposition",
     "Six refinement steps per history; potential changes small against the level spacing.")

prop("C12", "Density response equals first-order perturbation theory",
     "The response matrix of an orbital solver applied to any potential change gives the first-order change of its density at fixed "
     "occupations, for every angular momentum with its degeneracy, several orbitals, both spin treatments and a fractionally "
     "occupied last orbital. A constant potential change gives no response, nor does a block without electrons.",
     ["inputs"], "every mesh, potential, angular momentum, occupation and potential change",
     "Tests use the response only inside two inversions that stop at loose tolerance.",
     [SOL + "calc_response.py"], [("Sternheimer-type response", SOL + "calc_response.py")],
     "property-based testing (Hypothesis) against sum-over-states perturbation theory",
     "The normalisation term may use the block rule or the midpoint rule; occupied levels separated by 2e-3.")

prop("C13", "Functional energies and potentials assemble libxc output correctly",
     "For every functional of the LDA and GGA families and every one- or two-column density, the energy is the integral of the total density "
     "times the energy per particle, and the potential is the functional derivative per spin, including the divergence of the gradient term "
     "with its same-spin and cross-spin parts. Exchanging spins or nuclei exchanges the result, a closed shell gives the same result in "
     "either spin treatment, the density passed in is unchanged, and an unknown family raises ValueError.",
     ["inputs", "configurations"], "every mesh, functional and positive density",
     "Tests only evaluate one LDA exchange and correlation functional inside energies; spin-polarised gradient functionals are unreached.",
     ["CADMium/libxc/libxc.py", PS + "sigma.py"], [("assembly", "CADMium/libxc/libxc.py")],
     "property-based testing (Hypothesis): differential, finite differences, spin and mirror symmetry",
     "libxc is replaced by a stand-in with exact derivatives: the coupling is under test, not libxc.")

prop("C14", "Kohn-Sham SCF converges to the self-consistent state with its energies",
     "For every molecule, spin treatment, set of angular momenta, whole or fractional occupation, functional, mixing weight and solver choice, a "
     "converged calculation has the density, levels, chemical potential and energy components (kinetic, nuclear, external, Hartree, exchange, "
     "correlation, nuclear repulsion, total) of the self-consistent solution, and its effective potential is the sum of its parts "
     "at that density. Without interaction the energy is that of independent electrons in the nuclear and external potential.",
     ["inputs", "configurations"], "every system, functional and SCF setting for which the iteration converges",
     "Tests compare a few atoms and one molecule with stored energies.",
     [KSD + "kohnsham.py", KSD + "scf.py"], [("SCF loop", KSD + "scf.py"), ("energy assembly", KSD + "kohnsham.py")],
     "property-based testing (Hypothesis): differential against an independent dense SCF",
     "Cases whose independent iteration does not converge, has near-degenerate levels or several solutions are skipped and counted.")

prop("C15", "A Kohn-Sham solution does not depend on labels, history or starting point",
     "Exchanging the nuclei mirrors the solution, exchanging spins exchanges the spin densities, a spin-restricted calculation equals the "
     "unrestricted one with equal spins, and a constant added to the potential only shifts levels. Continuing, restarting, starting from "
     "another density or converging in stages ends at the same state; the symmetry and spin-flip options reproduce the plain result "
     "with exactly symmetric densities. Scaling charges by L and lengths by 1/L scales non-interacting energies by L^2.",
     ["inputs", "histories"], "every system and equivalent way of computing it, when the solution is unique",
     "Each test runs one calculation once from scratch.",
     [KSD + "scf.py", KSD + "kohnsham.py"], [("continuation and symmetry options", KSD + "scf.py")],
     "property-based testing (Hypothesis): metamorphic pairs and call histories",
     "Systems with several solutions or an unstable iteration (by an independent loop) are skipped and counted.")

prop("C16", "Options are validated, case-insensitive, private and effective",
     "Every constructor and SCF driver accepts its documented options in any letter case, uses the documented default for the others, raises "
     "ValueError for unknown names and invalid values, and neither changes the caller's dictionary nor shares options between objects; a "
     "partition hands its options to its fragments. The Kohn-Sham SCF loop mixes with the given weight, runs at most the requested number of "
     "cycles, stops early only when the change per cycle is below the tolerance, and prints only when asked.",
     ["inputs", "configurations"], "every subset of documented options with valid or invalid values",
     "Tests pass one fixed set of valid options and never an invalid one.",
     [KSD + "kohnsham.py", KSD + "scf.py", PAR + "partition.py", PAR + "scf.py", SOL + "pssolver.py", "CADMium/inverter/inverter.py"],
     [("option classes", KSD + "kohnsham.py"), ("option classes", PAR + "partition.py")],
     "property-based testing (Hypothesis) against a table of the documented options and a model of the mixing loop",
     "Options that upstream leaves unimplemented are only constructed, not run.")

prop("C17", "Fragment ensembles add up to the protomolecule with weights summing to one",
     "For every pair of fragments, ensemble mixing (1-nu of the first member, nu of the second) and spin-symmetrised ensemble (half weight plus "
     "its spin-flipped copy), the protomolecular density is the weighted sum of fragment densities and each fragment's local weight is its share "
     "of it, zero where there is no density. With nuclear symmetry the B fragments are mirror images of the A fragments with the same energies. "
     "The partition potential is the weighted combination of the fragments' potentials with the same symmetries.",
     ["inputs", "configurations"], "every partition, ensemble and set of fragment densities",
     "Tests use one symmetric two-fragment case and one fixed ensemble.",
     [PAR + "partition.py", PAR + "partition_potential.py", PAR + "energy.py"],
     [("scale factors, protomolecule, weights, mirror", PAR + "partition.py"), ("combination", PAR + "partition_potential.py")],
     "property-based testing (Hypothesis) against explicit sums", "Fragment densities are prescribed, not self-consistent.")

prop("C18", "The partition energy is molecular minus fragment energy, term by term",
     "For every partition the fragment sums of each energy component carry the ensemble weights, and the partition energy's nuclear, kinetic "
     "(von Weizsaecker, libxc functional, two-orbital, none), Hartree, exchange and correlation parts are that functional of the protomolecule "
     "minus the weighted fragment values, with the overlap approximations scaling them by the overlap factor. Total energy is fragments plus "
     "partition energy plus Za*Zb/(2a); isolated fragments have zero partition energy.",
     ["inputs", "configurations"], "every partition, ensemble, functional choice and set of fragment densities",
     "Tests compare stored energies of H2, Be2 and one ensemble.",
     [PAR + "energy.py", PAR + "partition_energy.py", PAR + "ep_kinetic.py", PAR + "ep_nuclear.py", PAR + "ep_hxc.py", PAR + "EnsCorHar.py"],
     [("assembly", PAR + "energy.py"), ("components", PAR + "ep_hxc.py"), ("components", PAR + "ep_kinetic.py")],
     "property-based testing (Hypothesis) against separately evaluated functionals", "Unimplemented variants listed in DESIGN.md are outside.")

prop("C19", "Partition potentials are functional derivatives of the partition energy",
     "For every partition with implemented functionals, changing one fragment's density by a small amount changes the nuclear, kinetic and "
     "Hartree-exchange-correlation partition energy by the integral of that fragment's potential component times the change, weighted with the "
     "fragment's share in the ensemble. This includes the overlap approximations and the two-orbital kinetic energy.",
     ["inputs", "configurations"], "every partition, functional choice, fragment, spin and direction of change",
     "Tests compare stored potentials at a few points of two symmetric molecules; a potential inconsistent with its energy goes unnoticed.",
     [PAR + "vp_nuclear.py", PAR + "vp_kinetic.py", PAR + "vp_hxc.py", PAR + "vp_overlap.py", PAR + "EnsCorHar.py"],
     [("kinetic", PAR + "vp_kinetic.py"), ("interaction", PAR + "vp_hxc.py"), ("overlap", PAR + "vp_overlap.py")],
     "property-based testing (Hypothesis): finite differences of the energy",
     "Boundary and quadrature defects of the discrete quadratic forms are computed separately and added to the prediction.")

prop("C20", "Self-consistent partition calculations reach the partitioned ground state",
     "For every pair of fragments, ensemble, symmetry option, functional choice, embedding type (one global or one potential per fragment) and "
     "mixing, a converged partition calculation has the fragment densities, levels, chemical potentials and energies of the self-consistent "
     "solution; isolated fragments are the free atoms, and a frozen fragment feels no partition potential. Continuing a converged "
     "calculation stays there. When the kinetic term is exact (one orbital, or density inversion) the density and total energy are those of the "
     "unpartitioned molecule.",
     ["inputs", "configurations", "histories"], "every partition and SCF setting for which the iteration converges",
     "Tests run three fixed partitions from scratch.",
     [PAR + "scf.py", PAR + "partition.py", PAR + "partition_potential.py", PAR + "initialguessinvert.py"],
     [("SCF loop", PAR + "scf.py"), ("potential", PAR + "partition_potential.py")],
     "property-based testing (Hypothesis): differential against an independent loop and against molecular calculations",
     "Cases whose independent loop does not converge or is unstable are skipped and counted; partition potentials for given densities come from the package (C19).")

prop("C21", "Density inversion returns a potential that reproduces the density",
     "Inverting the density of electrons in any bound potential, one or two spins, several orbitals and angular momenta, by the response or the orbital "
     "method, returns a potential whose own orbitals give that density, with the levels, chemical potential, kinetic energy and "
     "kinetic energy density that belong to it, and the kinetic potential is chemical potential minus potential. "
     "This holds from any starting potential, with mirror symmetry imposed on symmetric densities, and for a second density on the same object.",
     ["inputs", "configurations", "histories"], "every density of closed blocks for which the optimiser converges",
     "Tests invert two densities of one orbital each.",
     ["CADMium/inverter/inverter.py", "CADMium/inverter/linresponse.py", "CADMium/inverter/orbitalinvert.py", "CADMium/inverter/get_Ts.py",
      "CADMium/inverter/get_ts_WFI.py"],
     [("response method", "CADMium/inverter/linresponse.py"), ("orbital method", "CADMium/inverter/orbitalinvert.py")],
     "property-based testing (Hypothesis): round trip potential -> density -> potential",
     "Closed shells with separated bound levels; cases where the optimiser stops early are skipped and counted.")
