"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
B = "src/fmmax/"
def P(id, title, statement, over, qtext, why, files, mech, observe, state=()):
    return dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=[B+f for f in files],
            state=[dict(name=n, meaning=m, where=B+w) for n, m, w in state],
            mechanism=[dict(name=n, where=B+w) for n, w in mech],
            observe_at=observe, hook_needed=None))
PROPS = [
P("C01", "S-matrix depends only on the layer stack, not on how it was assembled",
  "The scattering matrix of a stack of layers is determined by the ordered list of layers and their thicknesses. "
  "Any sequence of stack building, scanning, appending, prepending, joining two stacks with the star product, taking the before/after substacks of an interior layer, and changing the first or last layer thickness that ends in the same list yields the same four blocks and the same recorded first and last layers and thicknesses. "
  "This holds for every number of Fourier terms, kind of layer, and (broadcastable) batch shape.",
  ["histories","inputs"], "every finite history of scattering-matrix operations over every alphabet of layers and thicknesses (stacks of two or more layers for the thickness setters)",
  "tests build three or four fixed stacks, each by one alternative route with one operation kind; they never interleave operations, so stale records and wrong block bookkeeping that only matter on the next operation are not reached",
  ["scattering.py"],
  [("layer append/prepend recursion","scattering.py:append_layer,prepend_layer,_extend_s_matrix"),("pair initialisation","scattering.py:_pair_s_matrix"),("star product","scattering.py:redheffer_star_product"),("interior substacks","scattering.py:stack_s_matrices_interior"),("scan","scattering.py:stack_s_matrix_scan"),("thickness setters","scattering.py:set_end_layer_thickness,set_start_layer_thickness")],
  ["returned ScatteringMatrix blocks and start/end layer fields"],
  [("start/end layer record","what the next operation extends from","scattering.py:ScatteringMatrix")]),
P("C02", "S-matrix of homogeneous stacks equals the exact multilayer solution",
  "For a stack of homogeneous layers - isotropic, uniaxial or biaxial along the axes, gyrotropic at normal incidence, magnetic, lossless, evanescent or lossy - between isotropic ambients, the scattering matrix equals the exact solution of Maxwell's equations for every Fourier order and polarization, in the documented block and phase convention (forward waves referenced to the start of a layer, backward waves to its end). "
  "Different Fourier orders do not couple.",
  ["inputs","configurations"], "all layer sequences, thicknesses, in-plane wavevectors, Fourier orders and material tensors of that class",
  "tests compare reflection of one interface or one film at a handful of angles with tolerances of 1e-3 and mostly the zeroth order; transmission phase, off-axis orders, two-sided incidence and multi-layer magnetic/biaxial stacks are not compared with an exact answer",
  ["fmm.py","fmm_matrices.py","scattering.py","basis.py"],
  [("uniform eigensolve","fmm.py:_eigensolve_uniform_isotropic_media,_eigensolve_uniform_general_anisotropic_media"),("interface matrices and phases","scattering.py:_extend_s_matrix,_pair_s_matrix")],
  ["ScatteringMatrix blocks"]),
P("C03", "Energy is conserved: power in = power out + power absorbed",
  "For any excitation of any stack, the net power flow through planes normal to the stack (the sum over orders of forward and backward flux) is the same at every depth of lossless layers and across every interface, and never increases along its direction through lossy layers. "
  "(Exact for the FFT formulation at any truncation, for homogeneous layers and for one-dimensional gratings; the vector-field formulations of two-dimensional patterns conserve energy only in the limit of many terms.) In particular, for lossless stacks between lossless ambients the total outgoing power equals the total incoming power, and for passive stacks it never exceeds it.",
  ["inputs","configurations"], "all stacks (patterned, anisotropic, magnetic, lossy), formulations that are energy conserving, excitations from either or both sides and any mixture of orders",
  "tests check flux on a few single-layer cases; no test walks the power ledger through patterned multi-layer stacks with two-sided, multi-order excitation",
  ["fields.py","scattering.py","fmm.py"],
  [("Poynting flux","fields.py:directional_poynting_flux,amplitude_poynting_flux,eigenmode_poynting_flux"),("interior amplitudes","fields.py:amplitudes_interior,colocate_amplitudes")],
  ["returned forward/backward flux arrays"]),
P("C04", "Interior wave amplitudes solve the stack: continuity and boundary values",
  "For given incident amplitudes at both ends of a stack, the interior amplitudes returned for every layer reproduce the incident amplitudes in the first and last layer, reproduce the outgoing amplitudes given by the scattering matrix, and make the tangential electric and magnetic fields continuous across every interface. "
  "Propagating amplitudes by d1 then d2 equals propagating by d1+d2, and co-located amplitudes at any depth are consistent with that.",
  ["inputs","configurations"], "all stacks, interior layers, excitations, depths, batch shapes",
  "tests check the shapes and one batch-vs-single comparison; continuity across interfaces of interior layers is never evaluated",
  ["fields.py","scattering.py"],
  [("interior solve","fields.py:amplitudes_interior,stack_amplitudes_interior"),("propagation","fields.py:propagate_amplitude,colocate_amplitudes"),("substack matrices","scattering.py:stack_s_matrices_interior")],
  ["returned amplitudes and the fields computed from them"]),
P("C05", "Fields computed from wave amplitudes satisfy Maxwell's equations",
  "The six field components returned for any forward and backward amplitudes in any layer satisfy Maxwell's curl equations of that layer's material with the documented conventions (c = eps0 = mu0 = 1, exp(-i w t)). "
  "For homogeneous layers they equal the exact plane-wave fields; for patterned layers they satisfy the truncated Fourier-space equations, with every mode having a non-growing forward direction, lossless propagating modes a positive propagation constant.",
  ["inputs","configurations"], "all amplitudes, layers (isotropic, anisotropic, magnetic, patterned), orders and in-plane wavevectors",
  "tests evaluate shapes and two conventions on coarse cases; no test evaluates the curl equations, in particular for z components in anisotropic or magnetic layers",
  ["fields.py","fmm.py","fmm_matrices.py"],
  [("field conversion","fields.py:fields_from_wave_amplitudes,field_conversion_matrix"),("eigenproblem","fmm.py:_numerical_eigensolve,_select_eigenvalues_sign"),("k matrices","fmm_matrices.py")],
  ["returned electric and magnetic Fourier amplitudes, eigenvalues"]),
P("C06", "Batched calculations equal the loop of single calculations",
  "Any calculation carried out with leading batch axes (wavelength, in-plane wavevector, lattice vectors, permittivity, thickness, amplitudes) or with several amplitude columns gives, at each batch index, exactly what the calculation for that index alone gives, with batch shapes combining by the usual broadcasting rules. "
  "This covers the eigensolve, scattering matrices, interior amplitudes, fields, fluxes, sources and vector fields.",
  ["inputs","configurations"], "all combinations of mutually broadcastable batch shapes of the inputs and every batch index",
  "tests compare one or two batch shapes per function, always with one batched input at a time",
  ["fmm.py","basis.py","scattering.py","fields.py","sources.py","vector.py","utils.py"],
  [("broadcasting of inputs","fmm.py:_validate_and_broadcast"),("rank promotion","utils.py:atleast_nd,batch_compatible_shapes"),("vector field batching","vector.py:compute_tangent_field")],
  ["all returned arrays, per batch index"]),
P("C07", "Fourier expansions are complete, symmetric and ordered",
  "A generated expansion contains distinct integer orders, the zeroth order first, orders sorted by increasing in-plane wavevector magnitude, and is symmetric under inversion. "
  "Circular truncation contains exactly the reciprocal lattice vectors inside the circle whose area is the requested number of terms times the reciprocal cell area; parallelogramic truncation contains a full box of orders whose side lengths in reciprocal space are as equal and whose size is as close to the request as documented.",
  ["inputs"], "all non-degenerate lattices (any aspect ratio and skew), all requested numbers of terms, both truncations",
  "tests use square and 1:2 rectangular lattices and a dozen sizes; tall cells and odd requests are not reached",
  ["basis.py"],
  [("truncations","basis.py:_basis_coefficients_circular,_basis_coefficients_parallelogramic"),("entry point","basis.py:generate_expansion")],
  ["Expansion.basis_coefficients"]),
P("C08", "Fourier transforms and convolution matrices are exact on band-limited data",
  "The forward transform returns at each expansion order exactly the Fourier coefficient of that order, the inverse transform returns exactly the field with those coefficients, along the requested axes and with any batch axes, and they round-trip. "
  "The convolution matrix entry (i, j) is the coefficient at order i minus order j, so multiplying by it equals multiplying in real space for band-limited data; arrays too small for the expansion are rejected.",
  ["inputs"], "all expansions (any order list), grid shapes including the minimum allowed and non-square, axes, batch shapes and data",
  "tests use random data on one or two square shapes with default axes, comparing with the same index formula",
  ["fft.py"],
  [("index gather/scatter","fft.py:fft,ifft,_standard_toeplitz_indices,fourier_convolution_matrix"),("size validation","fft.py:_validate_shape_for_expansion,min_array_shape_for_expansion")],
  ["returned arrays"]),
P("C09", "Lattice, wavevector and coordinate geometry is exact",
  "Reciprocal vectors are dual to the lattice vectors; unit-cell coordinates put grid index (i, j) of cell (m, n) at (m + i/nx) u + (n + j/ny) v; transverse wavevectors are the in-plane wavevector plus 2 pi times the integer combination of reciprocal vectors in expansion order. "
  "Brillouin-zone grids contain exactly the requested number of points, the centers of equal cells of the zone centered on zero, and plane-wave in-plane wavevectors have the direction and length set by angle, wavelength and index.",
  ["inputs"], "all non-degenerate (also batched) lattices, grid shapes, cell counts, expansions, angles",
  "tests use unit square lattices and a few shapes; skewed or batched lattices, and large Brillouin grids are not sampled",
  ["basis.py"],
  [("reciprocal","basis.py:reciprocal"),("coordinates","basis.py:unit_cell_coordinates"),("wavevectors","basis.py:transverse_wavevectors,brillouin_zone_in_plane_wavevector,plane_wave_in_plane_wavevector")],
  ["returned arrays"]),
P("C10", "Equivalent descriptions of a layer give the same layer solution",
  "A layer described through different entry points - uniform or constant patterned arrays of any shape, isotropic or anisotropic or general magnetic API, diagonal tensors, explicit or default vector-field source, any formulation where the medium is homogeneous, or a custom vector-field callable equal to a built-in one - has the same spectrum of modes and the same reflection and transmission in a stack. "
  "Every returned mode has a non-negative imaginary propagation constant, and layer matrices are the Fourier representations of the given material.",
  ["configurations","inputs"], "all pairs of equivalent descriptions, formulations, grids and materials",
  "tests compare some pairs for square grids with one formulation each; magnetic and non-square patterned pairs and non-default vector-field sources are not compared",
  ["fmm.py","fmm_matrices.py","vector.py"],
  [("dispatch","fmm.py:eigensolve_isotropic_media,eigensolve_anisotropic_media,eigensolve_general_anisotropic_media"),("Fourier matrices","fmm.py:fourier_matrices_patterned_isotropic_media,fourier_matrices_patterned_anisotropic_media"),("transverse matrices","fmm_matrices.py:transverse_permittivity_*,transverse_permeability_*")],
  ["eigenvalues, reflection/transmission through uniform ambients, layer matrices"]),
P("C11", "Results respect the symmetries of the physics",
  "Rescaling all lengths, translating the pattern, rotating or mirroring the structure, exchanging or re-choosing lattice vectors, describing a unit cell as a supercell, reversing the stack, splitting a layer in two, and swapping electric with magnetic materials change the per-order reflection and transmission only by the corresponding relabelling of orders, polarizations and phases.",
  ["inputs","histories"], "all compositions of these transformations applied to all structures (with the vector formulations: the transformations that map their discrete tangent field onto itself, i.e. no oblique rotations, sub-cell changes of lattice or supercells, and no mirrors for the Jones formulations, which choose a helicity)",
  "tests check one rotated-grating case and vector-field scale invariance; compositions and per-order phases are not checked",
  ["fmm.py","fmm_matrices.py","basis.py","fft.py","scattering.py"],
  [("whole pipeline","fmm.py"),("Fourier matrices","fmm_matrices.py"),("expansion and wavevectors","basis.py")],
  ["reflection and transmission blocks between uniform ambients"]),
P("C12", "Real-space field sampling agrees with the Fourier fields everywhere",
  "Fields on grids, on arbitrary coordinates, in single layers and in 3D stacks are the same function of position: each Fourier order contributes its coefficient times exp(i (k+G).r), fields in neighbouring unit cells differ by the Bloch phase, and z samples run evenly from the start to the end of each layer with layers placed one after another. "
  "Array layouts (component, batch, x, y, z, amplitude) are as documented for every grid shape, number of cells, number of z points and number of amplitudes.",
  ["inputs","configurations"], "all grids, coordinates, cell counts, layers, z counts, amplitudes, in-plane wavevectors and lattices",
  "tests compare grid and coordinate evaluations against each other on square lattices, so errors common to both, non-square shapes and z placement are not seen",
  ["fields.py","basis.py","fft.py"],
  [("grid sampling","fields.py:fields_on_grid,_fields_on_grid"),("coordinate sampling","fields.py:fields_on_coordinates"),("3D assembly","fields.py:_layer_fields_3d,_stack_fields_3d,stack_fields_3d_auto_grid")],
  ["returned field and coordinate arrays"]),
P("C13", "Poynting flux functions agree with the fields",
  "The flux returned by every flux function, summed over orders, equals the unit-cell average of Re(E x H*) along z computed from the fields of the same amplitudes; forward plus backward parts add up to that total for arbitrary amplitudes including evanescent and interfering ones. "
  "The directional split assigns each mode by the sign of its own power flow, eigenmode flux equals the flux of that mode alone, and flux scales with the squared magnitude of the amplitudes.",
  ["inputs"], "all layers, amplitudes (mixed forward/backward, several columns), batch shapes",
  "tests check one-hot amplitudes in a couple of layers; interference terms and lossy or magnetic layers are not checked against fields",
  ["fields.py"],
  [("flux","fields.py:amplitude_poynting_flux,directional_poynting_flux,eigenmode_poynting_flux,_poynting_flux_a_matrix")],
  ["returned flux arrays and fields"]),
P("C14", "Internal sources produce the correct field jumps and only outgoing waves",
  "For any current distribution on an interface inside a stack, the returned amplitudes give fields whose jumps across the source plane are exactly those of the current (tangential H jumps by the in-plane current, tangential E by the gradient of the normal current over permittivity), with no incoming waves from outside and all amplitudes related by the substack scattering matrices. "
  "Point and Gaussian source coefficients have the position phase of each order and the Gaussian roll-off, and amplitudes are linear in the currents.",
  ["inputs","configurations"], "all stacks on both sides, currents (jx, jy, jz mixtures, several columns, Brillouin grids), source positions and widths",
  "tests check planar sources in uniform media and total power of three dipole orientations in one structure",
  ["sources.py","fields.py"],
  [("emission system","sources.py:emission_matrix,polarization_terms,amplitudes_for_source"),("source coefficients","sources.py:dirac_delta_source,gaussian_source"),("interior amplitudes with source","fields.py:stack_amplitudes_interior_with_source")],
  ["returned amplitudes and fields computed from them"]),
P("C15", "Amplitudes recovered from real-space fields reproduce those fields",
  "Converting transverse fields on a real-space grid to wave amplitudes inverts the conversion of amplitudes to fields on a grid, for any layer, grid, number of fields and batch. "
  "For fields on a supercell with a Brillouin-zone grid of wavevectors, each wavevector receives exactly the part of the field with its Bloch phase, so that the sum over the grid of the reconstructed fields is the original field times the number of grid points.",
  ["inputs","configurations"], "all band-limited fields, supercell shapes, Brillouin grid shapes and positions of the Brillouin axes",
  "tests use one square supercell and a Gaussian-like field",
  ["sources.py","basis.py","fft.py"],
  [("amplitude recovery","sources.py:amplitudes_for_fields"),("coordinates","basis.py:unit_cell_coordinates")],
  ["returned amplitudes"]),
P("C16", "PML tensors have the documented layout and profile",
  "Applying a perfectly matched layer leaves the interior of the cell unchanged (isotropic, nonmagnetic), replaces the material in the border by the nearest interior material, and multiplies it by uniaxial stretching tensors whose strength depends only on the normalized depth into the border of the stated width, symmetric on opposite sides, separately for x and y, with equal factors for permittivity and permeability and absorption (never gain). "
  "Borders that do not leave an interior are rejected.",
  ["inputs"], "all grid shapes, border widths (including zero in either direction), batch shapes, parameters and permittivities",
  "tests check one crop-and-pad example and decay of fields in two simulations with square cells and equal widths",
  ["pml.py"],
  [("profile and tensors","pml.py:apply_uniaxial_pml,_normalized_distance_into_pml"),("crop and pad","pml.py:_crop_and_edge_pad_pml_region")],
  ["returned permittivity and permeability components"]),
P("C17", "Farfield reconstruction places every order once and integrates all flux",
  "Unflattening puts the value of each (Brillouin grid point, Fourier order, polarization, source) at the array position of its transverse wavevector, each exactly once and not-a-number elsewhere, for any expansion, grid shape, batch layout and Brillouin axes position. "
  "Angles, solid angles and power density are those of the wavevector at that position; flux integrated over complementary angular regions adds up to the total flux, whatever the upsampling.",
  ["inputs","configurations"], "all expansions, Brillouin grid shapes (also non-square), axes positions, batch shapes, flux values and angular bounds",
  "tests cover square expansions with a few shapes and one dipole pattern",
  ["farfield.py","basis.py"],
  [("unflatten","farfield.py:unflatten,unflatten_flux,unflatten_transverse_wavevectors"),("angles and solid angle","farfield.py:angles_from_unflattened_transverse_wavevectors,solid_angle_from_unflattened_transverse_wavevectors"),("integration","farfield.py:integrated_flux,farfield_profile")],
  ["returned arrays"]),
P("C18", "Tangent vector fields are tangent, normalized and invariant",
  "For every built-in scheme the vector field is finite, has magnitude at most one (exactly one everywhere for the Jones schemes and, except at isolated zeros of the field, for the normal schemes), and for structures varying in a single direction - of any orientation, on any lattice - it is uniform and parallel to the interfaces. "
  "It does not change when the unit cell is uniformly rescaled or when the contrast or offset of the defining array changes, it transforms as a vector when the structure is rotated, translated by grid cells or mirrored, and up to the accuracy of the grid it repeats in supercells.",
  ["inputs"], "all arrays, lattices, expansions and schemes",
  "tests check axis-aligned gratings, one supercell and a few scalings",
  ["vector.py"],
  [("field optimisation","vector.py:compute_tangent_field,_compute_tangent_field_no_batch"),("normalisation","vector.py:normalize,normalize_elementwise,normalize_jones"),("gradient","vector.py:compute_gradient")],
  ["returned (tx, ty)"]),
P("C19", "Beam reorientation is the exact rigid motion of the fields",
  "The rotation matrix is the proper rotation composed of polar rotation about y, azimuthal rotation about z and polarization rotation about the resulting propagation axis. "
  "Shifted and rotated fields at a point equal the rotated vectors of the original fields at the inversely rotated and shifted point, for any field function, origin and coordinate array shape.",
  ["inputs"], "all angles, origins, coordinates and field functions",
  "tests check multiples of ninety degrees and pure shifts",
  ["beams.py"],
  [("rotation","beams.py:rotation_matrix"),("field transformation","beams.py:shifted_rotated_fields")],
  ["returned matrices and fields"]),
P("C20", "Gradients are the true derivatives and stay finite",
  "Reverse-mode derivatives of eigenvalues, of eigenvector-dependent but scale-independent quantities, and of reflection and transmission with respect to permittivity, thickness, wavelength and wavevector equal the true derivatives (up to the documented broadening for nearly degenerate modes), for single and batched matrices. "
  "They remain finite for degenerate modes and uniform patterned layers.",
  ["inputs"], "all diagonalizable matrices and all simulations",
  "tests compare gradients for two random matrices and one simulation output at loose tolerance",
  ["utils.py","fmm.py","vector.py"],
  [("custom vjp","utils.py:_eig_fwd,_eig_bwd"),("differentiable pipeline","fmm.py:_numerical_eigensolve")],
  ["values returned by jax.grad / jax.vjp"]),
P("C21", "Objects survive transformation by jax: jit and pytrees change nothing",
  "Flattening and unflattening lattice vectors, expansions, truncations, formulations, layer results, scattering matrices and PML parameters returns equal objects; the static parts of these structures (expansions, truncations, formulations, PML parameters) compare and hash by value; and compiled (jit) calculations return the same values as uncompiled ones, also when the compiled function is reused with other array values and other expansions.",
  ["histories","inputs"], "all objects, and all sequences of calls to compiled functions with changing arguments",
  "tests round-trip one or two objects and check that jit runs; re-use of compiled functions with a different expansion, or comparison of all fields, is not covered",
  ["basis.py","fmm.py","scattering.py","pml.py","utils.py"],
  [("pytree registration","basis.py:register_pytree_node calls,_HashableArray; fmm.py; scattering.py; pml.py")],
  ["round-tripped objects, outputs of compiled functions"]),
P("C22", "Invalid inputs are rejected, valid ones accepted",
  "Inputs outside the documented domain - incompatible batch shapes, arrays too small for the expansion, mismatched tensor or field shapes, mismatched sequence lengths, non-positive Brillouin grid shapes, out-of-range or duplicate axes, malformed lattice vectors, expansions or source locations - raise an error instead of returning a result. "
  "Inputs inside the domain, including its boundary, are accepted.",
  ["inputs"], "all combinations of argument shapes and integers around the boundary of each documented domain",
  "tests probe each validator with one to five invalid examples and no boundary search",
  ["basis.py","fft.py","fmm.py","fields.py","sources.py","scattering.py","utils.py","pml.py"],
  [("validators","utils.py:batch_compatible_shapes,absolute_axes; fft.py:_validate_shape_for_expansion; fmm.py:_validate_and_broadcast,LayerSolveResult.__post_init__; fields.py:_validate_amplitudes_shape,_validate_matching_lengths; basis.py:__post_init__ methods")],
  ["whether a call raises"]),
P("C23", "Permittivity interpolation follows the index path without zero crossing",
  "Interpolated permittivity equals the solid permittivity at density one, the void permittivity at density zero, and in between is the square of the linearly interpolated complex refractive index, elementwise with broadcasting. "
  "It is never zero between materials with positive index or extinction, and a passive mixture stays passive.",
  ["inputs"], "all permittivities (metals, dielectrics, lossy), densities and array shapes",
  "tests check five scalar examples",
  ["utils.py"],
  [("interpolation","utils.py:interpolate_permittivity")],
  ["returned permittivity"]),
]
if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for p in PROPS: f.write(json.dumps(p) + "\n")
    print(len(PROPS), out)
