#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the long texts stay reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mechanism, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=list(over), text=text), why_tests_cant=why,
        anchors=dict(files=list(files),
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mechanism],
            observe_at=list(observe), hook_needed=hook)))

prop("C01", "Training returns the best physically valid model it evaluated",
 "Whatever sequence of per-iteration outcomes occurs (ordinary loss, loss computed from an unphysical R+T>1 spectrum that had to be renormalised, or a solver failure), the model in the configuration returned by run_training has exactly the parameters with which the lowest total loss (spectrum loss plus, for classification, the weighted regularisation term) among the physically valid iterations was evaluated, the earliest one on ties. If no iteration was physically valid it has the parameters training started from. The stored best state is a snapshot: later optimiser steps never change it.",
 ["histories", "inputs"], "every sequence of iteration outcomes (valid loss of any rank / renormalised loss of any rank / solver failure) of every length",
 "training_test.py runs two 3-iteration trainings per solver and looks only at the last loss value; no test inspects the returned parameters, a renormalised iteration or a solver failure.",
 ["nidn/training/run_training.py", "nidn/training/losses/spectrum_loss.py"],
 [("best-so-far bookkeeping and final reload", "run_training()"), ("deepcopy of the state dict", "run_training()")],
 [("best_loss", "lowest valid loss so far", "run_training()"), ("best_model_state_dict", "snapshot to return", "run_cfg")],
 ["parameters seen by each model evaluation", "run_cfg.model after run_training", "run_cfg.best_model_state_dict"])

prop("C02", "Solver failures during training roll back, halve the step and leave no trace",
 "When the solver rejects the model's permittivities with a ValueError during training, the next iteration starts from the best stored parameters, the learning rate is exactly half of what it was, no optimiser step is taken and nothing is appended to any log; training still performs the configured number of iterations and does not raise. On every other iteration exactly one optimiser step with the current learning rate is taken from that iteration's own gradient, and one entry is appended to each of the loss, L1-error and weighted-average logs: the total loss, the L1 error of the spectra, and the mean of the last at most 20 losses.",
 ["histories", "fault_sequences"], "every placement of solver failures in every run length, for regression and classification",
 "No existing test makes the solver fail during training or looks at the logs beyond the last loss.",
 ["nidn/training/run_training.py"],
 [("ValueError handler", "run_training()"), ("zero_grad/backward/step order and log appends", "run_training()")],
 [("results", "loss_log, L1_errs, weighted_average_log", "run_cfg.results")],
 ["run_cfg.results", "parameters and gradients seen at each model evaluation"])

prop("C03", "Spectrum and likelihood losses equal their definition",
 "The spectrum loss is the mean over all frequencies of |R-R*|^L and |T-T*|^L (and |A-A*|^L with A=1-R-T when absorption is included; divisor 2N or 3N), after every frequency point with R+T>1 - and no other point - has been rescaled to R/(R+T), T/(R+T) so that R+T is 1; the returned flag is true iff at least one point was rescaled. The likelihood regularisation is the mean over all predictions p of min(p^L,(1-p)^L), or with the maximum option the mean over points of 1-max(p). Neither modifies its inputs.",
 ["inputs"], "all spectra and targets of all lengths, all exponents L>0, with and without absorption",
 "No test calls either loss directly; trainings only assert that a loss is below 0.3.",
 ["nidn/training/losses/spectrum_loss.py", "nidn/training/losses/likelihood_regularization_loss.py"],
 [("per-frequency accumulation and renormalisation", "_spectrum_loss_fn"), ("min of distances", "_likelihood_regularization_loss_fn")],
 observe=["return values of the loss functions"])

prop("C04", "Configurations are accepted exactly when they satisfy the documented rules",
 "Validation accepts a configuration iff all required keys and no unknown keys are present, every entry checked for type (integer, float, boolean, string, list) has that type, and the value rules hold: ordered min/max permittivities and wavelength range, positive counts/sizes/thicknesses/source coordinates/iterations/learning rate, no negative lattice or target-spectrum entries, Nx and Ny multiples of the oversampling, one thickness or one per layer, ordered lattice rows, known type/frequency-distribution/source/pulse names, a 2- or 3-component source position and a reflection detector inside the free space. A missing or unknown key raises KeyError, a wrong type TypeError and a bad value RuntimeError (never ValueError, which training would swallow), before anything is computed. Validation never changes the configuration.",
 ["configurations"], "every combination of keys present/absent, entry types and boundary values of every checked entry, for both solvers",
 "The only test validates the unmodified default configuration; no rejected configuration is ever tried.",
 ["nidn/utils/validate_config.py", "nidn/utils/compute_spectrum.py", "nidn/training/run_training.py", "nidn/utils/resources/default_config.toml"],
 [("key, type and range checks", "_validate_config")], observe=["exception type raised by validation, compute_spectrum and run_training"])

prop("C05", "Target frequencies cover the wavelength range exactly, ordered, right units",
 "compute_target_frequencies and get_frequency_points return exactly N_freq unitless frequencies in strictly ascending order whose reciprocals are wavelengths in micrometres: the first is the reciprocal of the longest physical wavelength, the last (for N_freq >= 2) that of the shortest, and neighbours differ by a constant difference (linear) or constant ratio (log); any other distribution name raises ValueError. get_frequency_points also returns the matching physical wavelengths in metres in the same order, stores the frequencies in the configuration and touches nothing else in it. The unit conversions freq<->wavelength and frequency<->physical wavelength are their own inverses and wavelength<->metres are mutually inverse.",
 ["inputs", "configurations"], "all wavelength ranges, N_freq and both distributions",
 "One test checks the two end points of a single linear range; log spacing, interior points and get_frequency_points are never checked.",
 ["nidn/trcwa/compute_target_frequencies.py", "nidn/trcwa/get_frequency_points.py", "nidn/utils/convert_units.py"],
 [("linspace/logspace over reciprocal wavelengths", "compute_target_frequencies")], observe=["return values", "run_cfg.target_frequencies"])

prop("C06", "Material lookups return the tabulated permittivity at the nearest wavelength",
 "For every set of target frequencies and skip list, a material collection contains exactly the non-skipped CSV materials; its permittivity table has one row per name and one column per target frequency in the order given (also for a single frequency or a single material), and the entry is (n+ik)^2 of that material's own table row whose wavelength is nearest to 1/frequency. Lookup by name returns that material's row for every listed name and raises KeyError for any other, and an empty frequency list raises ValueError. The closest-material search returns for every grid point the index, and the distance, of the material with the smallest frequency-averaged |eps difference|.",
 ["inputs", "configurations"], "all target frequencies (inside and outside the tabulated range), all skip lists, all permittivity grids",
 "The only test checks the shape of one table; values, names, skip lists, single-frequency and single-material collections and the closest-material search are untested.",
 ["nidn/materials/material_collection.py", "nidn/materials/find_closest_material.py", "nidn/trcwa/load_material_data.py", "nidn/materials/data"],
 [("nearest-row lookup", "MaterialCollection._load_material_data"), ("stacking and naming", "MaterialCollection._load_materials_folder"), ("argmin of averaged distance", "_find_closest_material")],
 [("epsilon_matrix/material_names", "row i belongs to name i", "MaterialCollection")], ["MaterialCollection public attributes and []"])

prop("C07", "Layer builder places exactly the requested materials at the requested cells",
 "With cell (i,j) of an Nx x Ny layer at (i/(Nx-1), j/(Ny-1)) in the unit square, a built layer has shape (Nx, Ny, N_freq), and every cell carries, at every target frequency, exactly the database permittivity of one material: uniform layers the grid material; squared layers the inner material iff both coordinates lie strictly between a and 1-a; circle layers the inner material iff the cell lies strictly within the radius of the centre; all other cells the grid material. Builds are independent of each other and of earlier builds, and an unknown material raises KeyError.",
 ["inputs", "histories"], "all grid sizes (also non-square), materials, sizes, centres and build sequences",
 "Only build_uniform_layer on a 1x1 grid is exercised; square and circle layers have no test.",
 ["nidn/materials/layer_builder.py"],
 [("coordinate masks", "LayerBuilder.build_squared_layer / build_circle_layer")], observe=["returned permittivity tensors"])

prop("C08", "Regression permittivity grids stay in range and follow the model pointwise",
 "For every regression model the permittivity grid has shape (Nx, Ny, N_layers, N_freq), every real and imaginary part lies in its configured [min, max] (also with noise, and whatever the model outputs), except that with zero-avoidance on no real part is closer to zero than 0.01. Without noise, for the neural models the value at (x, y, layer, freq) is the network's [real, imag] output for that grid point and frequency mapped affinely from [0,1] onto [min,max], evaluated once per block of eps_oversampling x eps_oversampling cells, so cells of one block are equal and different blocks, layers and frequencies are independent. For the voxel model it is the stored weight clipped to the range. The networks are asked at points evenly spaced over [-1,1] in x and y, at the layers' accumulated thickness scaled to [-1000,1000] (evenly if one thickness is given), and at frequencies evenly spaced over [-32,32] or, for the log distribution, proportional to the frequency with the largest at 32. Zero-avoidance moves a real part within 0.01 of zero to 0.01 times its sign (0 to 0.01) and changes no other. Noise moves each part only by an amount of the order of noise_scale times the width of its own range, so not at all for noise_scale 0, and does move values away from the range's ends for large noise_scale.",
 ["inputs", "configurations"], "all model outputs, grid sizes, oversampling factors, ranges, thickness lists and both frequency distributions",
 "model_to_eps_grid_test.py explicitly checks only that the function runs and the shape for one default configuration (1x1 grid, no oversampling, zero imag minimum).",
 ["nidn/training/model/model_to_eps_grid.py", "nidn/training/utils/voxel.py"],
 [("grid evaluation, reshape, oversampling, scaling and clipping", "_regression_model_to_eps_grid"), ("input coordinates", "_get_transformed_grid/_eval_model"), ("zero avoidance", "_avoid_zero_eps")],
 observe=["model_to_eps_grid return value", "inputs received by the model"])

prop("C09", "Classification grids are per-point material mixtures at the matching frequency",
 "For every classification model the returned material probabilities have shape (Nx, Ny, N_layers, N_materials), are non-negative, sum to 1 at every point, and are the softmax with inverse temperature 16 of the model's likelihoods averaged over frequency, constant over each eps_oversampling block; each point's most likely material is the one with the highest averaged likelihood. The permittivity at each point and frequency is the probability-weighted sum of the materials' permittivities at that same frequency, with shape (Nx, Ny, N_layers, N_freq) for every N_freq including 1, real parts within 0.01 of zero being pushed to +-0.01 when zero-avoidance is on.",
 ["inputs", "configurations"], "all likelihood outputs, grid sizes, oversampling factors, N_freq >= 1 and material sets",
 "The only test checks that the call runs and the shape for N_freq=20 on a 1x1 grid.",
 ["nidn/training/model/model_to_eps_grid.py", "nidn/materials/material_collection.py"],
 [("frequency average, softmax and mixture", "_classification_model_to_eps_grid")], observe=["model_to_eps_grid return value"])

prop("C10", "RCWA reproduces exact thin-film optics for uniform layer stacks",
 "For every stack of uniform layers (any number, any order, any permittivities including metals, any per-layer or shared thickness, any half-space permittivities above and below with normal incidence from above) and every frequency, the reflectance and transmittance computed by the RCWA solver equal those of exact thin-film theory up to the solver's built-in 1e-5 relative loss; with Nx=Ny=1 as well as when the same uniform stack is given on an Nx x Ny grid. In particular free space gives R=0, T=1, lossless stacks give R+T=1, passive stacks give R,T>=0 and R+T<=1.",
 ["inputs"], "all uniform stacks, thicknesses, half-spaces, frequencies and truncation orders",
 "Three fixed structures with one permittivity each are compared with stored numbers; per-layer thickness lists, half-spaces other than vacuum, layer order and lossless/metallic layers are never exercised.",
 ["nidn/trcwa/trcwa.py", "nidn/trcwa/init_trcwa.py", "nidn/trcwa/compute_spectrum_trcwa.py"],
 [("scattering-matrix recursion and Poynting flux", "GetSMatrix, GetZPoyntingFlux"), ("stack assembly", "_init_trcwa")], observe=["compute_spectrum with solver TRCWA"])

prop("C11", "RCWA spectra of patterned layers respect the structure's symmetries",
 "For every patterned stack (any Nx, Ny including 1 x N and N x 1 and three cells, any number of layers, real, complex or negative permittivities, rectangular and oblique lattices) the RCWA reflectance and transmittance do not change when all layers are cyclically shifted by the same number of cells, mirrored in x and/or y (rectangular lattices) or turned by half a turn, when the same structure is described in another basis of its lattice, when the number of cells along a direction in which all layers are uniform is changed, when two periods are taken as one supercell (keeping all orders in between), when the period along a direction in which all layers are uniform is changed (the retained orders staying the same), when a layer is cut into two layers of the same pattern whose thicknesses add up, or when all lengths and the wavelength are scaled together. Keeping only the zeroth diffraction order, a patterned layer acts exactly like a uniform layer with its average permittivity. Passive stacks give R,T>=0 and R+T<=1, lossless ones R+T=1 (away from guided-mode resonances, where the solver's built-in loss shows). Grids must be fine enough for the retained orders.",
 ["inputs"], "all patterns, cell counts, layer stacks, lattices and truncation orders",
 "The patterned tests use one constant grid and one three-layer grid (9x9) and compare one number; no transformation of a pattern is ever compared.",
 ["nidn/trcwa/trcwa.py", "nidn/trcwa/init_trcwa.py", "nidn/trcwa/utils/fft_funs.py", "nidn/trcwa/utils/kbloch.py"],
 [("Fourier convolution matrices", "Epsilon_fft/get_conv"), ("layer selection from the grid", "GridLayer_geteps"), ("reciprocal lattice and truncation", "Gsel_circular")],
 observe=["compute_spectrum with solver TRCWA"])

prop("C12", "Spectra line up with frequencies and every frequency is computed independently",
 "For both solvers compute_spectrum returns the pair (reflectance, transmittance), each with exactly N_freq entries; entry i depends only on frequency i and on the permittivity slice i, so changing or permuting other slices leaves it unchanged and permuting frequencies together with slices permutes the result. Permittivities containing NaN raise ValueError, and for RCWA a grid whose shape differs from (Nx, Ny, N_layers, N_freq) or missing frequencies raise AssertionError. The permittivity grid passed in is never modified.",
 ["inputs"], "all permittivity grids, frequency lists and solvers",
 "Existing tests use the same permittivity at all frequencies or compare fixed numbers; no test varies one frequency slice or passes NaN or a wrong shape.",
 ["nidn/utils/compute_spectrum.py", "nidn/trcwa/compute_spectrum_trcwa.py", "nidn/fdtd_integration/compute_spectrum_fdtd.py"],
 [("per-frequency loop", "compute_spectrum_trcwa / compute_spectrum_fdtd"), ("input checks", "compute_spectrum_trcwa")], observe=["compute_spectrum"])

prop("C13", "Repeated and interleaved runs on one configuration are reproducible",
 "For every sequence of settings changes, validations, frequency queries, spectrum computations with either solver and trainings on one configuration object, each result equals that of the same call made alone on a fresh configuration with the same user settings, independent of the global random state, of earlier calls and of their solver (an RCWA spectrum being computed at the frequencies last derived by a query, a training or an FDTD spectrum): spectra are bit-identical on repetition and a training without a pre-set model is fully determined by its settings and seed, another seed giving different initial parameters. The entries a user has to set (target frequencies and results being derived) keep their meaning throughout (in particular a shared layer thickness stays the same for every layer), and a supplied model is trained further instead of being replaced.",
 ["histories", "configurations"], "every interleaving of API calls on a shared configuration and every prior random state",
 "Each test uses a fresh configuration and a single call (the training tests reuse one once, after deleting the model, without comparing anything).",
 ["nidn/training/run_training.py", "nidn/utils/fix_random_seeds.py", "nidn/fdtd_integration/compute_spectrum_fdtd.py", "nidn/trcwa/get_frequency_points.py", "nidn/training/model/init_network.py"],
 [("seeding", "fix_random_seeds in _init_training"), ("run-time keys recomputed on every call", "_init_training / compute_spectrum_fdtd")],
 [("run_cfg", "shared mutable configuration", "all API functions")], ["return values and run_cfg after every call"])

prop("C14", "Every FDTD time step is the discrete Maxwell update, recorded once",
 "Each step of an FDTD grid advances E by courant x inverse permittivity x curl H (with the absorption factors (1-f)/(1+f) and 1/(1+f) where absorbing objects were placed), then H by -courant x inverse permeability x curl E of the new E, on every cell and for 1-D, 2-D and 3-D grids; periodic boundaries copy the opposite edge, point and line sources add their signal of that time step exactly at their cells (plane sources impose it on E and H in their plane), and each detector appends exactly one E and one H sample per step, taken after sources acted, at its own cells. Steps are counted, run(n) equals n single steps (n steps given as a duration of n time steps in seconds are n steps, too; a fraction below one half is dropped), and reset returns to zero fields and step 0. The time step is the Courant number times the grid spacing over c; without a Courant number 0.99/sqrt(dimensions) is used and one above 1/sqrt(dimensions) raises ValueError, one up to it is used as given.",
 ["histories", "inputs"], "all field states, grid shapes, object/source/detector placements and step sequences",
 "One stored time trace of a single-layer setup and two stored spectra; only Ez/Hx/Hy on 3-cell-wide grids with fixed scenes are reached.",
 ["nidn/fdtd/grid.py", "nidn/fdtd/objects.py", "nidn/fdtd/boundaries.py", "nidn/fdtd/sources.py", "nidn/fdtd/detectors.py"],
 [("curl and leap-frog update", "Grid.update_E/update_H"), ("component registration", "Object/AbsorbingObject/_PeriodicBoundary/LineSource/LineDetector._register_grid")],
 [("E, H, time_steps_passed", "field state", "Grid")], ["Grid.E, Grid.H, detector_values(), time_steps_passed"])

prop("C15", "The FDTD scene matches the configured geometry",
 "For every valid configuration the simulated scene consists of absorbing boundary regions of the configured thickness at both x ends, periodic y edges, the source at its configured position (a line across the three y cells, or a point whose y position is wrapped into them) with the configured waveform (a unit-amplitude sine with the wavelength's period in whole time steps, a Ricker wavelet of that wavelength, or the five-cycle Hanning burst), a reflection detector the configured number of grid points before the first layer and a transmission detector the same number after the last, and - only in the material run - one object per layer, in order, contiguous and non-overlapping, starting after boundary plus free space, each spanning its own thickness at the grid scaling and carrying its own layer's real permittivity and the conductivity corresponding to its imaginary part. The grid scaling is the larger of the configured minimum and ten cells per shortest wavelength; grid spacing, total size and the reference run's geometry follow from it. Every frequency is simulated by exactly two runs of FDTD_niter steps, one without and one with the layers of that frequency.",
 ["configurations", "inputs"], "all layer counts and thickness lists, boundary/free-space sizes, scalings, source types, pulse types and permittivities",
 "One four-layer scene is inspected for object count, permittivities and detector order only; positions, thicknesses, source, boundaries and scaling are not.",
 ["nidn/fdtd_integration/init_fdtd.py", "nidn/fdtd_integration/compute_fdtd_grid_scaling.py", "nidn/fdtd/objects.py", "nidn/fdtd/sources.py"],
 [("placement arithmetic", "init_fdtd"), ("scaling", "_compute_fdtd_grid_scaling")], observe=["Grid returned by init_fdtd"])

prop("C16", "FDTD coefficients are steady-state intensity ratios against free space",
 "From the four detector signals the transmission coefficient is the mean square of the material run's transmitted signal divided by that of the free-space run, and the reflection coefficient the mean square of (material minus free-space) reflection signal divided by that of the free-space reflection signal, each taken from first to last peak of the signal after leading zeros and the transient have been removed window by window (or half the squared maximum if there are fewer than two peaks). If their sum is between 1 and 1.05 both are divided by it, otherwise they are returned unchanged; an all-zero free-space signal raises ValueError; every other signal, in particular of any length, yields a result. Scaling both runs' signals by a common positive factor changes neither coefficient.",
 ["inputs"], "all signals of all lengths and windows",
 "One test with a pure sine of 4000 samples and an inequality that any smaller value satisfies; transient removal, short signals, few-peak fallback, normalisation and zero signals are untested.",
 ["nidn/fdtd_integration/calculate_transmission_reflection_coefficients.py"],
 [("transient elimination, peak finding, mean squares, normalisation", "calculate_transmission_reflection_coefficients")], observe=["return value of calculate_transmission_reflection_coefficients"])

prop("C17", "FDTD spectra agree with thin-film optics and stay physical",
 "For every stack of uniform passive layers resolved by the grid, with a continuous line or point source a few grid points in front of the reflection detector, the FDTD solver run with enough time steps returns reflectance and transmittance that agree with exact thin-film optics up to the second-order error of the grid (they agree, within the few percent of its averaging over a finite window, with the exact steady state of the discretised equations, which converges to thin-film optics): a free-space 'stack' gives R=0 and T=1 within that averaging error, absorbing layers absorb according to the imaginary part of their permittivity, values are never negative or NaN, R+T does not exceed 1 by more than numerical tolerance, opaque layers transmit nothing, reversing the layer order leaves the transmittance of lossless stacks unchanged, splitting a layer into grid-aligned sublayers of the same material changes nothing, and each frequency is simulated at its own wavelength. Every waveform and source geometry accepted by validation can be run and gives physical values.",
 ["inputs", "configurations"], "all uniform stacks, source and pulse types",
 "Two fixed scenes with a continuous line source are compared with stored numbers; other waveforms, point sources and any relation between results are never run.",
 ["nidn/fdtd_integration/compute_spectrum_fdtd.py", "nidn/fdtd_integration/init_fdtd.py", "nidn/fdtd/sources.py", "nidn/fdtd/boundaries.py"],
 [("free-space reference run", "compute_spectrum_fdtd"), ("PML", "boundaries.PML"), ("waveforms", "sources")], observe=["compute_spectrum with solver FDTD"])

prop("C18", "Spectra and losses are differentiable with respect to the permittivities",
 "For both solvers and every permittivity grid at which the spectra are smooth, the gradients that back-propagation delivers from reflectance and transmittance to every entry of the permittivity grid equal the derivatives of those outputs: entry (x,y,layer,freq) receives gradient only from the spectrum entry of its own frequency, no cell that influences the result receives zero or NaN gradient, and for lossless stacks the gradients of R and T with respect to real parts cancel. In training, every trainable parameter that influences the spectra receives the gradient of the total loss of that iteration only.",
 ["inputs", "histories"], "all permittivity grids, layers, cells, frequencies and iterations",
 "The gradient test checks only that the gradient of the loss with respect to itself is a float.",
 ["nidn/trcwa/trcwa.py", "nidn/trcwa/init_trcwa.py", "nidn/fdtd_integration/compute_spectrum_fdtd.py", "nidn/fdtd/grid.py", "nidn/training/run_training.py"],
 [("torch autograd through the solvers", "compute_spectrum")], observe=["eps_grid.grad after backward"])

prop("C19", "Saved runs are faithful snapshots and batch outputs are complete",
 "Loading a file written by save_run gives a run equal to the one passed in at the time of saving (settings, results, model parameters), regardless of what is done to the original afterwards or how many other runs are saved; the file lies in ../results/<subfolder>/ and starts with the run's name, and saving never modifies the run or removes or changes other files. Saving all plots of a trained run creates the spectra, losses, model-grid, per-frequency, material-grid and permittivity plots in the given folder, creating it if needed, without changing the run's settings, results or model.",
 ["histories", "configurations"], "every interleaving of saves, loads and modifications of several runs and subfolders",
 "save_run, load_run and the plotting functions have no test at all.",
 ["nidn/training/save_run.py", "nidn/training/load_run.py", "nidn/plots/save_all_plots.py"],
 [("pickle to a time-stamped file", "save_run"), ("pickle load", "load_run")], observe=["files under ../results", "loaded DotMap"])

prop("C20", "Networks accept every configured size and map points to (0,1) independently",
 "For every network type, number of hidden layers, width, encoding dimension and output count accepted by validation, the created network has the configured number of layers and width and maps a batch of points to one row of outputs per point with every value in [0,1] (neural models) or to a grid of the configured shape initialised inside the configured permittivity ranges (voxel, regression only); a row depends only on its own point, so batch order and size do not matter, and all parameters are trainable. Unknown model types raise NotImplementedError.",
 ["configurations", "inputs"], "all architectures and batches",
 "Only the default Siren with 9 hidden layers is ever constructed in tests.",
 ["nidn/training/model/init_network.py", "nidn/training/utils/nerf.py", "nidn/training/utils/siren.py", "nidn/training/utils/voxel.py"],
 [("layer construction and skip connection", "NERF, Siren, Voxel")], observe=["init_network return value and its forward"])

prop("C21", "Plots and printed configurations show the run's own data",
 "For every run (grid size, number of layers and frequencies, oversampling, model): plot_spectra draws, against the wavelength in micrometres and labelled as such, the target and the produced reflectance and transmittance (the given ones, or those of the model) in frequency order with their mean absolute difference as the L1 error; plot_spectrum draws the given reflectance and transmittance and on request the absorptance 1-R-T; plot_losses draws the complete L1, loss and weighted-average logs in order; the grid plots draw exactly one marker per grid point at that point's place (x and y index spread over [-1,1], layer as height, layers labelled L1, L2, ...) carrying |mean over frequencies of eps| (plot_model_grid), the norm of eps over frequencies (plot_epsilon_grid), the real and imaginary part at every requested frequency under its wavelength and on a colour scale shared by all frequencies (plot_model_grid_per_freq), or the closest non-skipped material with the name on the colour bar and on request its distance (plot_material_grid); plot_eps_per_point draws and labels the real and imaginary permittivity of every grid point (of run_cfg.eps if present, else of the model) and the curves and names of the requested, else of the closest, materials. A plot is written once to the given folder under its own or the given name, or shown once when no folder is given, and neither the run nor the tensors passed are changed. print_cfg prints every entry of any configuration, also of trained runs, with its value.",
 ["inputs", "configurations"], "all runs, plots and plotting options",
 "No test calls a plotting function or print_cfg.",
 ["nidn/plots/plot_spectra.py", "nidn/plots/plot_spectrum.py", "nidn/plots/plot_losses.py", "nidn/plots/plot_model_grid.py", "nidn/plots/plot_model_grid_per_freq.py", "nidn/plots/plot_epsilon_grid.py", "nidn/plots/plot_material_grid.py", "nidn/plots/plot_eps_per_point.py", "nidn/utils/print_cfg.py"],
 [("markers per grid point", "plot_*_grid*"), ("curves and labels", "plot_spectra/_add_plot, plot_eps_per_point")], observe=["artists of the figure when it is saved or shown", "standard output of print_cfg"])

prop("C22", "Absorbing boundaries act like open space",
 "A grid with absorbing boundaries (PML) of at least nine cells on any of its six faces - placed one by one or all around with DomainBorderPML, in 1-D, 2-D or 3-D grids, for every admissible Courant number and background permittivity - keeps between them, at every cell and step, the electric and magnetic fields that the same scene has on a grid extended so far that nothing returns: for source-free wave packets and pulses resolved by some ten cells the two differ by at most one percent of the peak field (three per mille with twelve cells or longer pulses, two per mille where waves spread in two or three dimensions), for every polarisation and direction of travel; faces without absorbing boundary reflect as before. Once the waves have left an all-open scene the fields stay below half a percent of the peak. Boundaries have no memory beyond reset: the same scene run again after reset gives the same fields. A second boundary on the same face, a PML away from the border, a periodic boundary on a face that absorbs, or a name used twice is rejected.",
 ["inputs", "histories"], "all scenes, faces, thicknesses, polarisations and histories of steps and resets",
 "fdtd_test.py only uses the two x faces of one two-dimensional geometry and looks at transmission within loose bounds; y and z boundaries, 1-D and 3-D grids and reset are never used.",
 ["nidn/fdtd/boundaries.py", "nidn/fdtd/grid.py"],
 [("conductivity profile and recursive convolution", "PML._calculate_parameters, update_phi_E, update_phi_H"), ("orientation", "_PMLXlow .. _PMLZhigh"), ("clearing", "Grid.reset")],
 [("psi_E*, psi_H*, phi_E, phi_H", "memory of the absorbing layer", "PML")], ["E and H of the cells between the boundaries"])

prop("C23", "RCWA handles oblique light and its orders, fields and absorption add up",
 "Used directly, the RCWA solver class is exact for every angle of incidence (theta below 90 degrees, any phi), polarisation (p, s and mixtures, any phases): for uniform isotropic stacks, and for anisotropic layers aligned with the plane of incidence, reflectance, transmittance and the momentum flux (stress) in both half-spaces are those of thin-film theory, total and frustrated total reflection included, whether layers are given as uniform or as grids. For every patterned stack (any grid, rectangular or oblique lattice, circular or parallelogramic truncation, which retain a set of orders symmetric about the zeroth and not larger than requested) the power by orders adds up to the total and vanishes in evanescent orders; tangential electric and magnetic fields are continuous at every interface; the power flux computed from the fields is 1-R where it enters, T where it leaves, and drops in every layer by exactly the absorbed power given by the volume integral of Im(eps) |E|^2, which is zero in lossless layers; the volume integral weights Ex, Ey and Ez with the matrices given for x, y and z; fields on the grid are the Fourier sum of the field amplitudes and the returned permittivity profile is that of the layer limited to the retained orders; the response is linear in the two polarisations' amplitudes; incidence from below (equal half-spaces) equals incidence from above on the stack turned upside down, in reflectance, transmittance and in the flux inside, and its fields join at the interfaces; scaling the periods by Pscale equals giving larger lattice vectors; rotating lattice and plane of incidence together, or interchanging x and y, changes no reflectance or transmittance; three equal anisotropic components act like an isotropic layer, different ones are kept per component and layer and obey the same energy balance; and the stress in a layer is the Maxwell stress of the fields there.",
 ["inputs"], "all structures, angles, polarisations and positions inside the stack",
 "The tests call the solver only at normal incidence through compute_spectrum and never ask for orders, fields, volume integrals, stress, anisotropic layers, incidence from below or the second truncation.",
 ["nidn/trcwa/trcwa.py", "nidn/trcwa/utils/fft_funs.py", "nidn/trcwa/utils/kbloch.py", "nidn/trcwa/utils/torch_functions.py"],
 [("angle and polarisation", "TRCWA.Init_Setup, MakeExcitationPlanewave"), ("orders", "RT_Solve, GetZPoyntingFlux, Lattice_getG"), ("fields", "SolveInterior, TranslateAmplitudes, Solve_FieldFourier, Solve_FieldOnGrid"), ("absorption and stress", "Volume_integral, Matrix_zintegral, Solve_ZStressTensorIntegral"), ("profile", "Return_eps, Epsilon_fft")], observe=["R, T, fields, amplitudes, integrals and profiles returned by TRCWA"])

prop("C24", "The batch runner trains, saves and plots every configuration of a folder",
 "For every folder of files, run_cfgs.py trains each top-level *.toml configuration exactly as if it were trained alone (same model, best state, results and settings in the saved run), whatever the other files and their order, and stores each run with its name under ../results/<time>_results/<name>_<time>/ (one results folder per batch), together with plots equal to those of the run alone when names are distinct; runs of equal names all keep their run files. Other files and subfolders are ignored, the configuration files are unchanged and nothing is written elsewhere. It exits with 0 iff every configuration is valid; with an invalid one it exits nonzero and what is saved are correct runs only; without a folder it exits nonzero.",
 ["inputs", "histories", "schedules"], "all folders: any number, mix, names and order of valid, invalid and other files",
 "No test runs the script.",
 ["nidn/scripts/run_cfgs.py", "nidn/training/save_run.py", "nidn/plots/save_all_plots.py"],
 [("batch loop", "scripts/run_cfgs.py __main__"), ("training", "run_training"), ("storing", "save_run, save_all_plots")], observe=["exit code", "files below ../results and in the configuration folder", "contents of the saved runs and plots"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
