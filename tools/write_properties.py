#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run to regenerate)."""
import json, os
P = "src/PythonicDISORT/pydisort.py"
A = "src/PythonicDISORT/_assemble_intensity_and_fluxes.py"
G = "src/PythonicDISORT/_solve_for_gen_and_part_sols.py"
K = "src/PythonicDISORT/_solve_for_coeffs.py"
S = "src/PythonicDISORT/subroutines.py"
TESTS = "The 42 tests pin a few dozen hand-picked atmospheres against stored Stamnes-DISORT tables with 1e-2..1e-3 tolerances"
out = []

def prop(id, title, statement, over, text, why, files, mech, observe, state=()):
    out.append(dict(
        id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
                     state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                     mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe, hook_needed=None)))

IN = ["inputs", "configurations"]
ALL = "every valid combination of layers, albedos, phase functions, stream counts, Fourier/Legendre truncations, delta-M fractions, beam, boundary and internal sources, surface reflection and solver options"

prop("C01", "The intensity solves the radiative transfer equation in every layer",
 "For every valid input, the uncorrected intensity returned by the solver, resolved into its azimuthal Fourier cosine modes, satisfies the (delta-M scaled) discrete-ordinates radiative transfer equation - extinction, multiple scattering, single scattering of the direct beam, and thermal emission weighted by one minus the albedo - at every optical depth inside every layer and for every stream. "
 "The separately returned zeroth-mode function satisfies the same equation for mode zero. "
 "The intensity contains no Fourier mode at or above the requested number of modes.",
 IN, ALL + "; every depth inside every layer, every stream, every Fourier mode",
 TESTS + "; most configurations (odd layer counts, mixed scattering/non-scattering layers, polynomial sources of degree 2+, delta-M per layer, truncated modes) are never evaluated and errors below 1e-3 pass.",
 [G, A, P, S],
 [("eigen-decomposition and particular solutions per mode and layer, with a shortcut for negligible scattering", G),
  ("assembly of u/u0 from eigenpairs, coefficients, beam and internal-source particular solutions", A),
  ("polynomial particular solution for internal sources", S),
  ("delta-M scaling and source rescaling", P)],
 ["u(tau, phi)", "u0(tau)"])

prop("C02", "Boundary conditions hold at the top and at the reflecting bottom",
 "At the top of the atmosphere the downward intensity equals the prescribed top boundary source, and at the bottom the upward intensity equals the prescribed bottom source plus the surface reflection (by the given BDRF Fourier modes) of the downward diffuse intensity and of the attenuated (delta-M scaled) direct beam, for every stream and every Fourier mode. "
 "Scalar and vector boundary sources act on the azimuthal mean only; matrix boundary sources act mode by mode.",
 IN, ALL + "; scalar, vector and matrix boundary sources; scalar, function and mixed BDRF mode lists shorter than, equal to or longer than the number of modes",
 TESTS + "; only isotropic boundary sources and two surface models are exercised, and only through table comparison.",
 [K, P],
 [("assembly of the boundary-condition system (dense and banded), right-hand side with beam, thermal and reflected terms", K),
  ("classification of boundary inputs and source rescaling", P)],
 ["u(0, phi)", "u(tau_bottom, phi)", "u0(0)", "u0(tau_bottom)"])

prop("C03", "Radiation fields are continuous across layer interfaces",
 "At every interior layer interface the limits from above and below of the intensity (with or without NT corrections), of its azimuthal mean, of the upward, downward and direct fluxes and of the actinic fluxes coincide, whatever the optical properties of the neighbouring layers.",
 IN, ALL + " with two or more layers; every interior interface, every stream and azimuth",
 TESTS + "; the tests evaluate at few depths, almost never on both sides of an interface, and NT corrections are only tested for homogeneous stacks or on average.",
 [K, A, P],
 [("interlayer continuity rows of the linear system", K), ("layer lookup and per-layer delta-M depth mapping", A),
  ("accumulation of TMS contributions from other layers", P)],
 ["u", "u0", "Fp", "Fm", "actinic flux functions"])

prop("C04", "Fluxes are the angular moments of the intensity and the direct beam",
 "At every optical depth the upward diffuse flux equals 2*pi times the cosine-weighted hemispheric quadrature of the azimuthally averaged intensity, the direct flux equals I0*mu0*exp(-tau/mu0) for the unscaled depth, and the downward diffuse flux equals the corresponding hemispheric moment plus the delta-M reclassification of beam energy. "
 "The actinic flux functions satisfy the same relations without the cosine weight. "
 "The azimuthally averaged intensity equals the mean of the (uncorrected) intensity over azimuth, and fluxes are unaffected by the azimuthal truncation and by NT corrections.",
 IN, ALL + "; all depths",
 TESTS + "; actinic fluxes are not tested at all and direct/diffuse reclassification only at a few depths.",
 [A, S],
 [("flux assembly from the zeroth mode with reclassification of delta-scaled flux", A),
  ("actinic flux generation with reclassification", S)],
 ["Fp(tau)", "Fm(tau)", "u0(tau)", "u(tau, phi)", "generate_diff_act_flux_funcs(u0)"])

prop("C05", "Energy is conserved: net flux divergence equals absorption minus emission",
 "Between any two optical depths in a layer the change in total net flux (upward minus downward diffuse minus direct) equals the integral of (1 - albedo) times (total actinic flux including the direct beam minus 4*pi times the internal source). "
 "For a whole atmosphere, energy entering through boundaries and beam equals energy leaving plus energy absorbed, with a lossless atmosphere approached as the albedo tends to one.",
 IN, ALL + "; all pairs of depths; albedos from 0 to within 1e-6 of 1",
 TESTS + "; no test forms an energy budget and 1e-3 table tolerances hide budget errors.",
 [A, G, K, P, S],
 [("quadrature normalisation of the phase function", G), ("flux assembly and reclassification", A), ("Kirchhoff weighting of the source and delta-M scaling", P)],
 ["Fp", "Fm", "actinic flux functions"])

prop("C06", "The antiderivative switch integrates every output exactly over depth",
 "For every output function (intensity with or without NT corrections, azimuthal mean, upward, diffuse and direct downward fluxes, actinic fluxes and interpolated intensities), the difference of its antiderivative between two depths of the same layer equals the depth integral of the function between them. "
 "This holds for any number of layers, any kind of sources and any number and order of depths passed at once.",
 IN, ALL + "; every output function; single depths and arrays of depths of any length and layer pattern",
 "Tests Ia-Ic check one single-layer atmosphere over its full depth with all sources on; multi-layer, no-beam and array evaluation of the antiderivatives is never exercised.",
 [A, P, S],
 [("antiderivative branches of each output function", A), ("antiderivative branches of the TMS and IMS corrections", P), ("antiderivative of the internal-source particular solution", S)],
 ["f(tau, is_antiderivative_wrt_tau=True) for every output function f"])

prop("C07", "Subdividing layers never changes the answer",
 "Replacing any layer by a stack of sublayers with the same optical properties and source polynomial and the same total optical thickness leaves the intensity (with or without NT corrections), azimuthal mean, fluxes and actinic fluxes unchanged at every depth. "
 "This holds for inhomogeneous atmospheres, for any number of sublayers, and across the layer-count threshold at which a different linear solver is used.",
 IN, ALL + "; every way of splitting layers",
 "Test 11a checks one homogeneous atmosphere split 16 ways; splitting inside an inhomogeneous atmosphere is never tested.",
 [K, A, P],
 [("multi-layer system assembly", K), ("delta-M depth accumulation and NT corrections over layers", P), ("layer lookup", A)],
 ["u", "u0", "Fp", "Fm", "actinic flux functions"])

prop("C08", "Delta-M scaling is an exact change of variables",
 "Solving with peak fractions f gives the same intensity and azimuthal mean, at corresponding depths, as solving without them the atmosphere whose thicknesses, albedos, Legendre coefficients and source polynomials were delta-M scaled by hand, and the same total (direct plus diffuse) fluxes. "
 "The reported direct flux always refers to the unscaled beam, and a peak fraction of zero in every layer, or in layers that do not scatter, has no effect.",
 IN, ALL + " with per-layer peak fractions, including layers with zero fraction or zero albedo",
 TESTS + "; scaled runs are compared with truncated tables only, so a slightly wrong scaling of depth, source or albedo in some layers passes.",
 [P, S, A],
 [("delta-M scaling of depth, albedo, coefficients and source polynomial", P), ("affine transformation of polynomial coefficients", S), ("depth mapping in each output function", A)],
 ["u", "u0", "Fp", "Fm"])

prop("C09", "Outputs are linear and homogeneous in the sources",
 "All outputs are linear in the sources: the solution for several sources acting together (beam, top and bottom boundary sources, internal sources per layer) equals the sum of the solutions for each source alone, for uncorrected and NT-corrected intensities, mean intensity, fluxes, actinic fluxes and antiderivatives. "
 "Multiplying all sources by a common positive factor multiplies all outputs by that factor, with no dependence on the absolute scale, and a source confined to any single layer or boundary always yields finite output.",
 IN, ALL + "; every partition of the sources, also into differences with negative entries; common factors over many orders of magnitude; sources present in only some layers",
 TESTS + "; superposition is never formed, and internal rescaling of sources is only exercised at the tested magnitudes.",
 [P, A, K, S],
 [("rescaling of sources by an internal factor and scaling back of outputs", P), ("scaling back in each output function", A), ("right-hand side assembly", K), ("actinic reclassification", S)],
 ["u", "u0", "Fp", "Fm", "actinic flux functions", "antiderivatives"])

prop("C10", "Azimuthal dependence is a cosine series about the beam azimuth",
 "The intensity (with or without NT corrections) depends on azimuth only through its difference from the beam azimuth, is even in that difference and 2*pi-periodic, and fluxes and mean intensity do not depend on the beam azimuth. "
 "Requesting K modes yields exactly the first K terms of the cosine series obtained with more modes (uncorrected intensity), and the reported Fourier error equals the largest ratio, over the requested points, of the last term to the uncorrected intensity.",
 IN, ALL + "; all azimuths, beam azimuths and mode counts",
 TESTS + "; rotation, truncation consistency and the Fourier-error output are never tested.",
 [A, P, G],
 [("Fourier synthesis and Fourier-error evaluation", A), ("scattering-angle computation in the corrections", S), ("per-mode loop", G)],
 ["u(tau, phi)", "u(tau, phi, return_Fourier_error=True)", "u0", "Fp", "Fm"])

prop("C11", "Speed and compatibility options never change results",
 "The flux-only mode, the layer threshold for the banded solver, the autograd-compatible mode and caching of BDRF modes (with or without a fixed beam angle, for any stream count and for scalar, function or mixed mode lists) change no output value. "
 "Whichever linear solver is selected, assembly of its matrix never touches memory outside the matrix.",
 ["configurations", "inputs"], ALL + "; every setting of the four options alone and combined",
 TESTS + "; each is run with one setting; caching and autograd mode are not compared with the plain path.",
 [K, A, P, S],
 [("dense and banded assembly with strided views", K), ("autograd-compatible branches", A), ("BDRF mode caching", S), ("flux-only mode", P)],
 ["all outputs under option pairs", "strided views created during assembly"])

prop("C12", "Equivalent ways of writing an input give the same solution",
 "Inputs that the documentation declares equivalent give the same outputs: scalars versus length-one or full arrays, integer versus floating-point values, 1-D versus 2-D coefficient arrays for one layer, a scalar BDRF mode versus a constant function, scalar versus constant vector versus matrix boundary sources, omitted arguments versus their stated defaults, and padding with zero source coefficients or unused Legendre coefficients, arguments by position or name, NumPy integers and booleans, and the same arrays in another memory layout, byte order, array subclass or read-only; the same numbers in single precision give the same results to single precision. "
 "A zeroth Legendre coefficient different from one is corrected to one with a warning.",
 IN, ALL + "; every rewriting of each argument",
 TESTS + "; each input is written one way only.",
 [P, K],
 [("normalisation and defaulting of arguments", P), ("boundary and BDRF shape handling", K)],
 ["all outputs for pairs of equivalent inputs"])

prop("C13", "Evaluation is pointwise and has the documented shape",
 "Evaluating an output function at an array of depths (and azimuths) in any order, with repeats, and spanning any set of layers gives at each entry what evaluating at that depth (and azimuth) alone gives, with axes in the documented order and size-one axes squeezed; no depths or no azimuths give empty results. "
 "Asking additionally for the layer boundaries, Fourier error or antiderivative never changes the values, and layer boundaries are returned as the last output. "
 "Both downward flux outputs have one entry per requested depth whether or not there is a beam.",
 IN, ALL + "; every multiset and order of depths and azimuths; every flag combination; all output functions",
 "Tests evaluate each function on one sorted array without flags.",
 [A, P, S],
 [("layer lookup and indexing in each output function", A), ("unique-layer handling in the corrections and internal source", P), ("wrappers for actinic flux and interpolation", S)],
 ["all output functions with arrays, scalars and flags"])

prop("C14", "Solutions are pure: no input mutation, no dependence on history or threads",
 "Solving never modifies the caller's arrays, lists or BDRF functions, and works on read-only arrays. "
 "Once returned, output functions depend only on their arguments: results are unaffected by earlier or interleaved evaluations, by other solves, by concurrent use from several threads, by later modification of the arrays and lists passed in (also to the caching helper), and by modification of arrays that were returned.",
 ["histories", "schedules", "inputs"], "every sequence and thread interleaving of solves, evaluations and caller-side array modifications, for all output functions including actinic and interpolated ones",
 "Every test performs one solve and one evaluation in a fresh state and never looks at its inputs again.",
 [P, A, S],
 [("copying or aliasing of arguments captured by output functions", P), ("closure state of output functions", A), ("reused interpolator objects", S)],
 ["argument arrays before/after", "outputs replayed under histories and threads"])

prop("C15", "Invalid inputs are rejected and valid ones accepted",
 "Every input outside the documented domain raises ValueError before any result is returned: non-positive or non-increasing optical depths, albedo outside [0,1), wrong leading dimensions, Legendre coefficients outside (-1,1), odd or too few streams, too many or non-positive Legendre coefficients or Fourier modes, negative beam intensity, beam angles out of range, malformed boundary sources, peak fraction outside [0,1], banded threshold below 3, NT corrections with the beam on a quadrature angle; and in the helpers: depths outside the atmosphere, cosines beyond one, even or too small Clenshaw-Curtis sizes, bad spline points, missing temperatures, zero scale factors. "
 "Inputs inside the domain, including at its closed ends, raise no error.",
 IN, "every argument position and layer index where a violation can occur, in otherwise arbitrary valid configurations; domain boundaries",
 "No test checks a rejection, and only mid-domain values are accepted in tests.",
 [P, A, S],
 [("input checks", P), ("depth-range checks in output functions", A), ("checks in helper functions", S)],
 ["exceptions and warnings raised by the public functions"])

prop("C16", "NT corrections are exactly TMS plus IMS and touch only the intensity",
 "With NT corrections on (beam present, some scattering layer with positive peak fraction, more coefficients supplied than used), the corrected minus the uncorrected intensity equals the documented TMS correction - the exact single-scattering difference, each layer contributing with its own phase function - plus the documented IMS correction for downward directions with optical-thickness-weighted averages, at all depths, azimuths and streams. "
 "Otherwise the switch changes nothing, and it never changes fluxes or the azimuthal mean. "
 "Corrected intensities are finite for all optical thicknesses.",
 IN, ALL + " with NT corrections; inhomogeneous atmospheres, all depths from thin to very thick",
 "NT corrections are tested on homogeneous single layers and, for one inhomogeneous stack, only that the mean error decreases.",
 [P],
 [("TMS correction", P), ("IMS correction and averages", P), ("conditions enabling the corrections", P)],
 ["u(tau, phi) with NT_cor on and off"])

prop("C17", "Interpolation reproduces the hemispheric polynomial through the streams",
 "The interpolated intensity or mean intensity equals, for each depth and azimuth, the unique polynomial in the cosine of polar angle through the upward stream values for positive cosines and through the downward stream values for non-positive cosines, hence reproduces the stream values at the quadrature angles. "
 "Arrays of cosines in any order mixing both hemispheres, and all flags of the underlying function (antiderivative, Fourier error, layer boundaries), behave as for the uninterpolated function.",
 IN, "all solutions, all cosines in [-1,1] in any order and mixture, all flags, both interpolable functions",
 "Interpolation is not covered by any test.",
 [S], [("barycentric interpolation wrapper", S)],
 ["interpolate(u)(mu, tau, phi)", "interpolate(u0)(mu, tau)"])

prop("C18", "An isothermal enclosure is in radiative equilibrium",
 "With no beam, internal source equal to a constant B in every layer, top source B and bottom source equal to the surface emissivity times B, the intensity equals B in every direction at every depth and the net flux vanishes, whatever the layers, albedos, phase functions, delta-M fractions and surface reflection. "
 "The emissivity is obtained from the zeroth BDRF mode by the provided helper.",
 IN, "all layer structures, albedos, phase functions, peak fractions, BDRFs, stream counts and temperatures",
 TESTS + "; no test uses the equilibrium solution, which is exact and independent of every optical parameter.",
 [P, K, S, A],
 [("Kirchhoff weighting of the source", P), ("emissivity from the BDRF", S), ("reflection of thermal radiation in the boundary system", K)],
 ["u", "u0", "Fp", "Fm"])

prop("C19", "Reciprocity and up-down mirror symmetry hold",
 "Turning the atmosphere upside down and exchanging top and bottom boundary sources (black surface, no beam, mirrored internal sources) exchanges upward and downward intensities and fluxes. "
 "For a beam incident at one quadrature angle and an observer at another, exchanging them leaves the reflected intensity per unit incident flux unchanged, also over a reciprocal reflecting surface, and exchanges the diffusely transmitted intensity with that of the inverted atmosphere.",
 IN, "all layer structures, albedos, phase functions, peak fractions and stream pairs; all depths and azimuths for the mirror symmetry",
 TESTS + "; no test compares an atmosphere with its mirror image or exchanged geometry.",
 [G, K, A], [("symmetry of the discretised scattering operator", G), ("top/bottom rows of the boundary system", K), ("upward/downward assembly", A)],
 ["u", "u0", "Fp", "Fm"])

prop("C20", "Radiation is non-negative, bounded and monotone in the sources",
 "For phase functions that are non-negative and fully represented, and non-negative sources, the intensities, fluxes and actinic fluxes are non-negative at every depth and do not decrease when any source or the surface albedo is increased. "
 "Without a beam they never exceed the largest blackbody-like source (maximum principle), and with only a beam the reflected plus transmitted energy never exceeds the incident energy, with downward total flux at the top equal to what is prescribed.",
 IN, "non-negative, fully represented phase functions in all layer structures, albedos up to 1-1e-6, surfaces, thicknesses and stream counts",
 TESTS + "; physical bounds are not asserted.",
 [G, K, A, P], [("eigen-solution and boundary system", K), ("assembly of outputs", A)],
 ["u", "u0", "Fp", "Fm", "actinic flux functions"])

prop("C21", "Blackbody helpers obey Planck's law",
 "The Planck helper equals the standard wavenumber form of Planck's law for every temperature and wavenumber without overflow, is zero at zero kelvin, and works elementwise on arrays. "
 "The band-emission helper is its wavenumber integral (additive over adjacent bands, approaching the Stefan-Boltzmann law), and the source-polynomial helper returns per layer the linear function of optical depth that takes the band emission of the interface temperatures at both interfaces. "
 "The emissivity helper returns one minus the directional-hemispherical reflectance of the zeroth BDRF mode.",
 IN, "all temperatures from 0 to 1e5 K, wavenumbers and bands, layer structures, BDRF modes and stream counts",
 "The helpers are only used to prepare inputs of a few tests with temperatures of 200-700 K.",
 [S], [("Planck, blackbody_contrib_to_BCs, generate_s_poly_coeffs, linear_spline_coefficients, generate_emissivity_from_BDRF", S)],
 ["subroutines.Planck", "subroutines.blackbody_contrib_to_BCs", "subroutines.generate_s_poly_coeffs", "subroutines.linear_spline_coefficients", "subroutines.generate_emissivity_from_BDRF"])

prop("C22", "Numerical helper routines satisfy their defining identities",
 "Gauss-Legendre nodes and weights integrate polynomials of degree up to 2N-1 exactly on any interval and Clenshaw-Curtis ones degree up to Nphi-1, with positive weights and nodes inside the interval; the solver's stream cosines are the positive Gauss nodes on (0,1) followed by their negatives. "
 "The affine polynomial transform satisfies D(a*x+b) = C(x); the finite-difference matrix differentiates quadratics exactly; the diagonal-ordered form reproduces the banded matrix; the scattering-angle helper returns the cosine of the angle between directions; interval and weight transforms are the affine maps; linear splines interpolate; prepend and dimension-appending helpers preserve contents.",
 ["inputs"], "all sizes, intervals, coefficients and angles",
 "The helpers are exercised only indirectly and at a few sizes.",
 [S], [("Gauss_Legendre_quad, Clenshaw_Curtis_quad, affine_transform_poly_coeffs, generate_FD_mat, to_diag_ordered_form, calculate_nu, transform_interval, transform_weights, prepend, atleast_2d_append, linear_spline_coefficients", S)],
 ["public helper functions in subroutines"])

prop("C23", "Results stay finite and converge in extreme regimes",
 "For optical thicknesses from 1e-9 to thousands, albedos from 0 to 1-1e-6, beams from grazing to overhead and up to dozens of layers, every output is finite (no overflow, NaN or infinity). "
 "Optically vanishing layers have no effect, the top of the atmosphere becomes independent of what lies below a sufficiently thick absorbing layer, a non-scattering atmosphere obeys Beer's law exactly, and small albedos converge continuously to it. "
 "Radiation entering an atmosphere without emission and reflection keeps its relative accuracy however much it is attenuated: cutting the layers up does not change it, it follows Beer's law without scattering, and the diffusion exponent deep inside a homogeneous medium.",
 IN, "extreme values of every optical parameter, alone and in combination",
 TESTS + "; extreme regimes are limited to a few listed thicknesses.",
 [G, K, A, P], [("removal of positive exponents in the boundary system and output functions", K), ("scattering shortcut threshold", G), ("TMS accumulation", P)],
 ["u", "u0", "Fp", "Fm", "actinic flux functions"])

prop("C24", "Autograd-compatible outputs have correct depth derivatives",
 "In autograd-compatible mode, automatic differentiation with respect to optical depth of the intensity (with or without NT corrections), mean intensity and fluxes yields the true derivative of the function at every depth inside the layers and (from within) at the top and bottom of the atmosphere, and differentiating an antiderivative yields the function itself.",
 IN, ALL + " in autograd-compatible mode; every interior depth, every output function",
 "Autograd mode is not exercised by any test.",
 [A, P, S], [("autograd-compatible branches of output functions", A), ("autograd-compatible branches of corrections", P), ("internal-source particular solution", S)],
 ["autograd jacobians of u, u0, Fp, Fm"])

prop("C25", "Any slab cut from the atmosphere reproduces the radiation inside it",
 "Cutting a slab out of an atmosphere between any two depths (ends, interfaces or inside layers) and solving it alone - depth origin moved to its top, source polynomials shifted, beam attenuated to the cut, and the intensity found at the cuts prescribed mode by mode as boundary sources - reproduces the uncorrected intensity, mean intensity, upward flux, total downward flux and actinic fluxes at every depth inside. "
 "A reflecting surface may equally be kept or replaced by the upward intensity found above it.",
 IN, ALL + " (without NT corrections); every pair of cut depths",
 "No test solves a part of an atmosphere with the radiation of the whole prescribed at its faces; only isotropic or zero boundary sources are exercised.",
 [K, G, P, A], [("boundary sources per mode and boundary-condition system", K), ("attenuation and scaling of the beam", P), ("particular solutions relative to the depth origin", S), ("evaluation per layer", A)],
 ["u", "u0", "Fp", "Fm", "actinic flux functions"])

prop("C26", "The comparison helper reports the true deviations from reference results",
 "For any reference tables and any solution functions the comparison helper evaluates the functions at the reference depths and azimuths and returns, entry by entry, the absolute deviation of upward, diffuse downward and direct fluxes and (when given) of the intensity for the selected polar angles after reordering, together with its ratio to the reference value (zero where the reference is zero). "
 "It prints the largest absolute and relative deviations, for intensities also the depth where each occurs, and leaves the reference tables untouched.",
 ["inputs"], "all reference tables (including zeros, single depths and single azimuths), stream orders, selections of angles and solution functions, with or without intensities",
 "The tests only consume the helper: a helper that under-reports deviations makes every one of them pass vacuously.",
 [S], [("comparison helper used by all table comparisons", S)], ["returned deviation arrays", "printed maxima"])

prop("C27", "Warnings appear exactly for risky inputs; ordinary problems run silently",
 "Solving and evaluating any ordinary problem in any mode raises no warning of any kind, neither from the package nor from floating-point operations (divide by zero, overflow, invalid value, discarded imaginary part). "
 "A package warning appears exactly when a risky condition holds: a scaled albedo above 1-1e-6, a used scaled Legendre coefficient beyond 0.95 in magnitude, a zeroth coefficient other than one in a scattering layer, more than ten source coefficients, more than 64 Fourier modes with intensities, or BDRF caching without a beam angle.",
 IN, ALL + "; inputs just short of and just across each warning condition",
 "Tests run with warnings ignored and never assert on them.",
 [P, S, A], [("input checks with warnings", P), ("warnings of helpers", S), ("evaluation of outputs", A)],
 ["warnings raised by pydisort, output functions and helpers"])

prop("C28", "More streams converge to the exact solution of the transfer problem",
 "With many streams, fluxes and mean intensity agree, to discretisation error, with the exact solution of the continuous transfer problem: for isotropic scattering in layered atmospheres with beam, diffuse illumination, internal sources and a Lambertian surface (also when written with a delta peak) they agree with Milne's integral equation. "
 "For smooth anisotropic scattering the fluxes settle as the number of streams is increased, up to 64 streams.",
 IN, "all isotropically scattering or smooth layered atmospheres with beam, diffuse illumination, constant or linear internal sources and Lambertian surface; stream counts from 16 to 64",
 "Tests compare with another discrete-ordinates code at fixed stream counts, which shares the discretisation and its conventions.",
 [G, K, A, P, S], [("quadrature and weights", S), ("phase function expansion and eigenproblem", G), ("boundary conditions", K), ("fluxes", A)],
 ["Fp", "Fm", "actinic flux functions"])

prop("C29", "Outputs respond continuously and proportionally to small input changes",
 "Moving any input by a small amount - depths, albedos, Legendre coefficients, peak fractions, beam angle, strength and azimuth, boundary sources, internal sources, surface modes, a thin layer being inserted, including zero or omitted inputs becoming small - and likewise the evaluation depth within a layer or the azimuth, moves every output continuously and in proportion: there are no jumps, dead zones or special values. "
 "The only exceptions are the documented switch-on of the NT corrections and a beam from exactly overhead.",
 IN, ALL + "; every kind of input and direction of change, relative sizes 1e-4 to 1e-9",
 "Tests evaluate isolated inputs; thresholds and special-cased values between them are invisible.",
 [G, K, A, P, S], [("shortcuts for absent sources, scattering and scaling", P), ("shortcut for negligible scattering", G), ("special-cased assembly", A), ("special-cased boundary sources", K)],
 ["u", "u0", "Fp", "Fm", "actinic flux functions"])

prop("C30", "Weak scattering gives exact single scattering of the true phase function",
 "When all single-scattering albedos become small, every output approaches the exact single-scattering result for the direct beam over a black surface: with NT corrections the intensity is that of the complete phase function (all supplied Legendre coefficients, whatever the delta-M fraction, layering and truncation), otherwise that of the coefficients in use; fluxes and actinic fluxes have the corresponding first-order values including the forward-peak energy handed back from the scaled beam, and the direct beam is unaffected by scattering.",
 IN, "every layering, thickness, phase function, stream count, delta-M fraction, beam direction and azimuth; albedos tending to zero; every depth and stream",
 "Tests compare strongly scattering tabulated cases; the limit ties delta-M scaling, TMS correction, Legendre sums and beam attenuation to first principles instead of to tables.",
 [P, A, G], [("TMS correction and Legendre sums", P), ("beam particular solution", G), ("reclassification of scaled beam", A)],
 ["u", "u0", "Fp", "Fm", "actinic flux functions"])

prop("C31", "Finely interleaved layers act like one layer of mixed properties",
 "Replacing a layer that is a mixture of two constituents (extinction-weighted albedo, scattering-weighted Legendre coefficients and peak fraction, common source polynomial) by many thin alternating layers of the pure constituents changes every output - intensity with or without NT corrections, its mean, fluxes and actinic fluxes - only by an amount that vanishes with the square of the sublayer thickness, with dozens to hundreds of layers, in either linear solver and with delta-M scaling.",
 IN, ALL + "; any two constituents and proportions; stacks of about 20 to 200 layers",
 "No test has more than a handful of distinct layers; errors tied to layer counts, to alternating properties or to layer averages do not show.",
 [K, G, A, P], [("layer system for many layers", K), ("per-layer eigenproblems", G), ("delta-M scaling and NT layer averages", P), ("layer lookup", A)],
 ["u", "u0", "Fp", "Fm", "actinic flux functions"])

prop("C32", "Solving and evaluating leave the process as they found it",
 "Solving, evaluating output functions and calling the helpers prints nothing (the comparison helper excepted), writes no files and changes no process-wide setting - floating-point error handling, warning filters, print options, random generators (except where an interpolating function is made), environment, working directory, open descriptors, threads, signal handlers, interpreter limits - also when an input or depth is rejected, a warning is raised or an evaluation fails. "
 "Arguments, output functions and returned arrays that the caller lets go of are freed, and repeating solves and evaluations with changing inputs does not accumulate memory.",
 ["inputs", "histories"], ALL + "; any sequence of solves, evaluations, rejected calls and discarded results within one process",
 "Tests look at returned values only; side effects on the embedding program and memory held over long runs show in no single solve.",
 [P, A, S, K, G], [("solver driver", P), ("output functions holding the solution", A), ("helpers and cached surface modes", S), ("linear solvers", K)],
 ["pydisort", "output functions", "helpers of subroutines"])

prop("C33", "Results do not depend on the process they are computed in",
 "Solving, evaluating and the helpers give the same values, the same exceptions for invalid inputs and the same package warnings in every process: with assertions or docstrings stripped (python -O, -OO), in development mode, under any hash seed and number of BLAS threads, in the main or another thread, in forked worker processes, under tracing or with garbage collection eager or off, without standard streams, working directory or environment variables, with other global print, random, decimal or locale settings, with the package at another path, and whatever was solved before. "
 "Apart from the autograd-compatible mode only the declared dependencies (NumPy and SciPy) need to be importable.",
 ["inputs", "configurations"], ALL + "; any process on the same machine with the same interpreter, NumPy and SciPy; default (not autograd-compatible) mode",
 "Tests run in one kind of process with every optional package installed; users run solvers in batch jobs, worker pools, threads and minimal installations.",
 [P, A, S, K, G], [("solver driver and validation", P), ("output functions", A), ("helpers and lazy imports", S), ("linear solvers", K), ("package imports", "src/PythonicDISORT/__init__.py")],
 ["pydisort", "output functions", "helpers of subroutines"])

prop("C34", "A beam along a stream equals radiation incident in that stream",
 "Without NT corrections, a direct beam whose cosine is that of a stream gives the same radiation as azimuth-resolved incident radiation in that stream only, carrying the same flux: with the (delta-M scaled) direct beam counted into its stream, the intensity, mean intensity, upward flux, total downward flux and actinic fluxes and their depth integrals agree, whatever other sources, surface and layers there are. "
 "Azimuthally uniform incident radiation is in all azimuthal averages the sum of one beam along each stream.",
 ["inputs", "configurations"], ALL + "; every stream as direction of the beam; without NT corrections",
 "No test puts the beam along a stream or compares two kinds of sources with each other.",
 [P, G, K, A], [("beam particular solution", G), ("incident radiation and surface reflection per mode", K), ("direct beam and reclassification in the fluxes", A)],
 ["u", "u0", "Fp", "Fm", "actinic flux functions"])

prop("C35", "An independent adding-doubling calculation gives the same radiation",
 "At every depth the intensity, mean intensity, upward, diffuse downward and direct fluxes and actinic fluxes are those found by a method that shares no step with the solver's: building every layer up by doubling thin slabs and joining them above the surface, for all Fourier modes, with the documented NT corrections added where they are active.",
 ["inputs", "configurations"], ALL,
 "The 42 tests pin a few dozen hand-picked atmospheres against stored Stamnes-DISORT tables, a program using the same method, with 1e-2..1e-3 tolerances.",
 [P, G, K, A, S], [("eigenvectors and particular solutions", G), ("boundary and interface system", K), ("assembly of outputs", A), ("scaling and NT corrections", P)],
 ["u", "u0", "Fp", "Fm", "actinic flux functions"])

prop("C36", "User-supplied reflection functions are called by the documented protocol",
 "Surface reflection modes may be any Python callables (functions, methods, partials, objects). They are called with two one-dimensional arrays of cosines, the streams and the streams or the beam's cosine, during the solve only and never when outputs are evaluated; what they return may be read-only, of any memory layout, an array subclass, or an array that the function keeps, or reuses for its next call with the same cosines. "
 "What they raise reaches the caller and leaves nothing behind, and they may themselves solve other problems. The caching helper evaluates each function when it is built; its results depend neither on arrays that the functions reuse afterwards nor, except for a beam cosine not cached, on further calls. The emissivity helper follows the same protocol.",
 ["inputs", "histories"], ALL + "; every kind of callable and returned array; faults at every call; nested solves; repeated solves with cached modes",
 "Tests use two or three stateless functions and never look at how they are called.",
 [K, P, S], [("calls of BDRF modes", K), ("caching and emissivity helpers", S)], ["log of calls of the user functions", "all outputs"])

prop("C37", "Memory grows at most in proportion to layers, depths and azimuths",
 "With the banded solver in use, the peak memory of a solve and the memory its output functions retain at most double when the number of layers doubles, and the peak memory of reading any output (intensity, mean intensity, fluxes, actinic fluxes, antiderivatives, Fourier error, interpolated functions) at most doubles when the number of layers, depths or azimuths doubles.",
 ["inputs", "configurations"], ALL + "; sizes up to hundreds of layers and thousands of depths or azimuths",
 "Tests solve at most a handful of layers and do not measure memory.",
 [K, P, A, S], [("banded storage of the boundary system", K), ("per-depth evaluation", A), ("NT corrections over layers", P)], ["traced allocations of pydisort and of the output functions"])

prop("C38", "An interrupted operation leaves everything as it was",
 "When a solve, the evaluation of an output function (first or later, intensity, mean intensity, fluxes, actinic fluxes, antiderivatives, interpolated functions) or a helper call is stopped before any statement by an interrupt, by lack of memory or by a request to exit, that exception reaches the caller, no array or list passed in has changed and no process-wide setting is left changed. "
 "Afterwards the same output functions, new solves and the helpers give the same results as in a process where nothing was interrupted, after any number of interruptions.",
 ["crash_points", "histories", "inputs"], ALL + "; every statement of the package at which execution can be stopped, other than in clean-up code; any sequence of interrupted operations",
 "No test stops anything half-way; users interrupt long computations in notebooks and go on with the same objects.",
 [P, A, S, K, G], [("solver driver", P), ("output functions", A), ("helpers, cached surface modes, interpolation", S), ("linear solvers", K), ("eigenproblems", G)],
 ["argument arrays before/after", "process-wide state", "outputs and helpers after interruptions"])

path = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(path, "w") as fh:
    for o in out:
        assert len(o["title"]) <= 80, (o["id"], len(o["title"]))
        fh.write(json.dumps(o) + "\n")
print(len(out))
