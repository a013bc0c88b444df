#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that the text stays reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files,
                               state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                               mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=list(observe))))
PS='popsynth/population_synth.py'; POP='popsynth/population.py'; AUX='popsynth/auxiliary_sampler.py'
DIST='popsynth/distribution.py'; SEL='popsynth/selection_probability/'; SV='popsynth/simulated_variable.py'
META='popsynth/utils/meta.py'

prop('C01','Same configuration and seed always give the same survey',
 'Two draws from identically configured population synths with the same seed produce identical populations: the configured seed is applied before any random number is consumed, it is the seed the synth was built with (constructor argument or file), every random number in a survey comes from that one seeded generator and nothing in a survey re-seeds it. No draw depends on wall-clock time, on set/hash order, on values left in module-level state by earlier surveys, or on a generator that the seed does not control.',
 ['configurations','histories'],'every synth configuration (distributions, samplers, selections), every seed, every survey option and every earlier history in the process',
 'Tests draw a handful of configurations, never compare two draws with the compiled kernels on, and cannot enumerate every sampler/option combination that may consume randomness before seeding.',
 [PS,DIST,AUX,'popsynth/utils/rejection_sample.py','popsynth/utils/spherical_geometry.py','popsynth/aux_samplers/'],
 [('seeding at the start of a survey',PS+': draw_survey'),('all samplers use the numpy/scipy global generator','popsynth/aux_samplers/*.py, popsynth/distributions/*.py')],
 [('seed','configured seed',PS+': PopulationSynth')],['PopulationSynth.draw_survey'])

prop('C02','Detection is exactly the conjunction of all attached selections',
 'In a survey drawn from a freshly configured or reset synth, an object is detected if and only if it passes the flux selection, the spatial selection (when one is attached) and the selection attached to every auxiliary sampler taking part in the survey: top-level samplers, a derived-luminosity sampler, and their secondaries at every nesting depth. No attached selection is ignored, overridden by another one or applied only to part of the objects, and nothing else hides an object; combining selections is an element-wise logical AND that does not alter the operands.',
 ['configurations','inputs'],'every combination of selections and samplers, every drawn survey',
 'Tests attach one or two selections and check that something is detected; they cannot cover every combination, depth and order of samplers.',
 [PS,AUX,SEL],[('accumulation of the selection',PS+': draw_survey'),('element-wise AND of two selections',SEL+'selection_probability.py: __add__'),('collection of the secondaries',AUX+': get_secondary_properties, SecondaryStorage')],
 [],['Population.selection'])

prop('C03','Threshold selections keep exactly the values inside the closed interval',
 'A lower-bound (and hard flux) selection keeps exactly the values >= its boundary, an upper-bound selection exactly the values <= its boundary, a box or distance selection exactly the values with lower <= value <= upper, and a galactic-plane selection exactly the objects with |b| >= its limit, boundaries included. This holds for every array of values and whichever quantity (observed value, distance, luminosity or flux) the selection is configured to judge; the unity selection keeps everything.',
 ['inputs','configurations'],'every value array (including values equal to a boundary), every boundary setting, every choice of judged quantity',
 'The tests use random draws, which never hit a boundary exactly, and only some of the quantity choices.',
 [SEL+'generic_selectors.py',SEL+'flux_selectors.py',SEL+'spatial_selection.py'],[('comparison operators in draw',SEL+'generic_selectors.py, spatial_selection.py')],
 [],['SelectionProbability.selection after draw'])

prop('C04','Every selection judges the quantity of its own objects',
 'In a survey drawn from a freshly configured or reset synth the flux selection is given the observed fluxes that the population reports, a sampler\'s selection is given that sampler\'s own observed values together with the survey\'s distances and luminosities, the spatial selection is given the survey\'s spatial positions, and the distance selection is given the distances of the detected objects. Each receives its data before it is evaluated, in the same object order and with the full length, also for nested secondaries and derived-luminosity samplers.',
 ['configurations','histories'],'every synth configuration and survey option',
 'Tests do not look at what a selector was handed; many selector/quantity pairings are never drawn at all.',
 [PS,AUX,SEL],[('set_* calls preceding select/draw',PS+': draw_survey; '+AUX+': draw')],
 [],['SelectionProbability.set_observed_flux / set_observed_value / set_distance / set_luminosity'])

prop('C05','Observed, latent and selection of a variable always stay paired',
 'A simulated variable keeps its observed values, its latent values and its selection mask element-for-element paired: indexing and slicing apply the same index to all three, `selected` / `non_selected` give exactly the (de)selected entries of both observed and latent values with a boolean mask that marks them all selected / all non-selected, and arithmetic (also in place) applies the same operation to observed and latent values. Constructing one from differently sized pieces is rejected.',
 ['inputs','programs'],'every array content, index expression, ufunc and operator sequence',
 'Tests exercise a few operators on small arrays and never chain selection, slicing and in-place operations.',
 [SV],[('SimulatedVariable.__new__/__getitem__/__array_ufunc__/selected/non_selected',SV)],[('observed, latent, selection','the three parallel arrays',SV)],['SimulatedVariable'])

prop('C06','Known/unknown distance bookkeeping partitions the detected objects',
 'In every population the known distances together with the unknown-distance indices account for each detected object exactly once, the known-distance indices are positions among the detected objects and select exactly the reported known distances, and object counts satisfy detections + non-detections = objects. The Stan data export and sub-populations report the same counts and index sets (Stan indices are 1-based).',
 ['inputs','configurations','histories'],'every population, whether drawn, re-loaded or down-selected, with every distance selection',
 'Tests only check one constructor-time length assertion and never compare indices with the distances they are meant to select.',
 [POP,PS,SEL+'selection_probability.py'],[('selection_index / non_selection_index',SEL+'selection_probability.py'),('draw_survey bookkeeping',PS),('to_sub_population, to_stan_data',POP)],[],['Population.known_distances','Population.to_stan_data','Population.to_sub_population'])

prop('C07','Writing a population to HDF5 and reading it back loses nothing',
 'Every quantity a population holds (objects\' luminosities, distances, angles, latent and observed fluxes, selection, draw probability, known-distance bookkeeping, auxiliary quantities, parameters, model spaces, truth, graph, synth description, name and forms, seed, limits) is stored by the writer and restored by the reader into the same quantity, for stand-alone files and for groups alike. Each is stored under a key the reader reads and under no other quantity\'s key, text comes back as the same text, and the directed graph comes back directed.',
 ['inputs','configurations'],'every population (with and without luminosity function, auxiliary quantities, detections, model spaces, probability)',
 'The round-trip tests compare a few array fields of a few populations.',
 [POP,'popsynth/utils/hdf5_utils.py'],[('writer/reader pair',POP+': writeto/addto, from_file/from_group'),('nested dict writer/reader','popsynth/utils/hdf5_utils.py')],[],['Population.writeto','Population.addto','Population.from_file','Population.from_group'])

prop('C08','Writing a population synth to dict/YAML and reading it back loses nothing',
 'A synth rebuilt from its own dictionary or YAML file has the same seed, spatial and luminosity distributions with the same parameter values (and rate flag), the same flux, distance and spatial selections, and the same auxiliary samplers with the same parameters, observed flag, selections, secondaries (all depths) and order. Parameters defined on base classes are restored like any other, defaults do not overwrite stored values, and reading a dictionary does not modify it.',
 ['inputs','configurations','programs'],'every synth configuration, including user-defined distributions, samplers and selections',
 'The tests round-trip one or two synths and do not compare every restored part, nested secondaries or inherited parameters.',
 [PS,AUX],[('to_dict/write_to and from_dict/from_file',PS),('get_secondary_objects',AUX)],[],['PopulationSynth.to_dict','from_dict','write_to','from_file'])

prop('C09','Parameter bounds, fixed flags and per-object storage are enforced',
 'Assigning a distribution, sampler or selection parameter a value below its minimum or above its maximum (the bounds themselves are allowed), or assigning a fixed parameter, is refused and leaves the stored value unchanged; any other assignment is what the next read of that parameter on that object returns. A parameter that was never set reads as its default, reading a parameter with neither value nor default fails, and setting a parameter on one object never changes another object.',
 ['inputs','histories'],'every parameter declaration, every value and every sequence of reads and writes on any number of objects',
 'Tests try a few parameters with one value each.',
 [META,DIST,AUX,SEL+'selection_probability.py'],[('descriptor protocol',META+': Parameter.__get__/__set__'),('per-object storage created in constructors',DIST+', '+AUX+', '+SEL+'selection_probability.py')],[('parameter storage','per-object values',META)],['attribute access on any Parameter'])

prop('C10','Pre-built populations configure exactly the distributions they name',
 'Each ready-made population (Pareto, Schechter, BPL, log-normal, log10-normal combined with homogeneous, power-law, star-formation-rate and plain spatial distributions) sets every constructor argument on the parameter of the same name of the right distribution, passes on the seed, the maximum distance and the rate flag, and uses the spatial and luminosity distributions its name says. No argument is dropped, swapped or replaced by a constant.',
 ['inputs','configurations'],'every ready-made population class and every argument value',
 'Tests build each class once with one set of values and only check that a survey can be drawn.',
 ['popsynth/populations/','popsynth/distributions/'],[('constructors of the population classes','popsynth/populations/*.py')],[],['constructors of popsynth.populations.*'])

prop('C11','Drawing a survey leaves the configured parameters unchanged',
 'After a survey has been drawn, with or without normalisation, every parameter of the spatial and luminosity distributions and of the samplers and selections reads the same value as before; in particular a normalisation parameter that is temporarily replaced is put back with its original value, also when the integration or the sampling in between fails with an exception.',
 ['configurations','fault_sequences','histories'],'every synth configuration, both normalisation modes, and an exception at any point between change and restore',
 'Tests never re-read parameters after a normalised draw and never make the integration fail.',
 [PS,DIST],[('save/restore of the normalisation parameter',PS+': draw_survey; '+DIST+': draw_distance')],[('normalisation parameter','temporarily set to one',DIST)],['PopulationSynth.draw_survey','SpatialDistribution.draw_distance'])

prop('C12','A drawn population is a snapshot independent of its synth',
 'The parameter dictionaries, truth record, model spaces, graph and synth description held by a population do not change when the synth that produced it, or one of its distributions or samplers, is later modified, cleaned or drawn again, and modifying those containers on a population does not change the synth.',
 ['histories'],'every sequence of operations on a synth after a survey has been drawn from it',
 'No test modifies a synth after drawing and then looks at the earlier population.',
 [PS,DIST,POP],[('hand-over of parameters, truth, model spaces and graph to the population',PS+': draw_survey')],[],['Population.truth','Population.spatial_parameters','Population.luminosity_parameters','Population.graph','Population.pop_synth'])

prop('C13','Reading, exporting or plotting a population does not change it',
 'No read-only operation of a population (properties, Stan export, writing to file, sub-population, display and plotting) changes any quantity the population holds, and the per-object arrays published under an auxiliary sampler\'s name cannot be reassigned.',
 ['histories','inputs'],'every population and every sequence of read-only operations',
 'Tests call the operations but do not compare the population before and after.',
 [POP,'popsynth/utils/'],[('attribute guard',POP+': __setattr__')],[('protected names','names that may not be reassigned',POP)],['all public methods of Population'])

prop('C14','Samplers are drawn in dependency order, once per survey, with context',
 'Before a sampler\'s true values are drawn its spatial values are set, the survey\'s luminosities are available to it when it declares that it uses them, and all of its secondaries have been drawn; its true values are drawn before its observed values, and those before its selection is evaluated. A sampler shared by several parents is drawn only once per survey, all samplers draw the same number of objects, and this holds at every nesting depth.',
 ['configurations','schedules'],'every dependency graph of samplers and every order of adding them',
 'Tests use at most two levels and one parent, and cannot see the order of draws.',
 [AUX,PS],[('draw of a sampler and its secondaries',AUX+': draw'),('context hand-over',PS+': draw_survey')],[],['AuxiliarySampler.draw'])

prop('C15','Resetting makes every sampler and selection draw afresh',
 'After cleaning a synth with reset, every sampler that was attached (top-level, derived-luminosity and secondaries at all depths) and every flux, distance, spatial and sampler selection that is attached again is drawn and evaluated afresh in the next survey, exactly as a new one would be; and the synth itself keeps no auxiliary sampler, derived luminosity or selection attached.',
 ['histories'],'every configuration that is cleaned and re-used, in any order',
 'Tests clean one configuration and never check nested samplers or stale selections.',
 [PS,AUX,SEL+'selection_probability.py'],[('clean(reset=True)',PS),('reset',AUX+', '+SEL+'selection_probability.py')],[],['PopulationSynth.clean','AuxiliarySampler.reset','SelectionProbability.reset'])

prop('C16','Object count and distances follow one and the same rate',
 'The expected number of objects is the integral, from zero to the maximum distance, of density times differential volume divided by the time adjustment; the actual number is a Poisson draw with that mean unless the caller fixes it; and distances are accepted by comparing a uniform height below the maximum of exactly that same rate (the normalised one when normalising) with the rate at a uniform distance below the maximum distance. The progress-bar and the silent variant use the same rule.',
 ['configurations','inputs'],'every spatial distribution, normalisation and progress-bar setting',
 'Statistical tests of single configurations cannot distinguish the siblings or a missing factor in a rarely used combination.',
 [PS,DIST,'popsynth/utils/rejection_sample.py'],[('rate, integral and Poisson draw',PS+': draw_survey'),('rejection sampling',DIST+': draw_distance; popsynth/utils/rejection_sample.py')],[],['PopulationSynth.draw_survey','SpatialDistribution.draw_distance'])

prop('C17','Fluxes are the transform of luminosity and distance, scattered in log',
 'The latent flux of each object is the spatial distribution\'s transform of that object\'s own luminosity and distance. When a flux scatter is given and a flux selection is attached, the observed flux is base**(log_base(latent flux) + normal(0, scatter)) with one independent normal per object and the same base (10 or e, as requested) for the logarithm and the exponentiation; otherwise the observed flux equals the latent flux.',
 ['inputs','configurations'],'every synth configuration, scatter and base',
 'Tests check that a survey can be drawn for both bases, not the relation between latent and observed flux.',
 [PS,'popsynth/distributions/'],[('flux computation and scatter',PS+': draw_survey, draw_log10_fobs, draw_log_fobs')],[],['Population.fluxes'])

prop('C18','Observed sampler values are the true values plus configured noise',
 'A sampler that is not observed reports observed values equal to its true values; an observed built-in sampler reports values drawn from a normal distribution centred on its own true values with standard deviation equal to its sigma parameter, one independent draw per object. Drawing the observed values never changes the true values.',
 ['inputs','configurations'],'every sampler class, parameter setting and observed flag',
 'Tests draw a few samplers and check moments or lengths at most.',
 [AUX,'popsynth/aux_samplers/'],[('observation_sampler of each class','popsynth/aux_samplers/*.py'),('draw',AUX)],[],['AuxiliarySampler.true_values/obs_values'])

prop('C19','Angles always lie in their domain and on the right axis',
 'Every built-in spatial distribution draws a polar angle in [0, pi] and an azimuth that is a longitude; the default sky is uniform on the sphere (azimuth uniform in [0, 2 pi), cosine of the polar angle uniform); declination is 90 degrees minus the polar angle and right ascension is the azimuth, in populations and in distributions alike; the RA sampler lies in [0, 2 pi), the declination sampler in [-pi/2, pi/2], and the viewing angle in [0, maximum angle]. Conversion to Cartesian coordinates uses the same convention.',
 ['inputs'],'every random draw and every parameter value',
 'Tests sample finitely many angles for a few classes; ranges must hold for all uniforms.',
 ['popsynth/utils/spherical_geometry.py',DIST,POP,'popsynth/aux_samplers/sky_sampler.py','popsynth/aux_samplers/viewing_angle_sampler.py','popsynth/distributions/spiral_galaxy_distribution.py'],
 [('sampling and conversion formulas','popsynth/utils/spherical_geometry.py, sky_sampler.py, viewing_angle_sampler.py')],[],['theta, phi, ra, dec'])

prop('C20','Log-space and truncated samplers use one base and the configured bounds',
 'A log-normal sampler or distribution exponentiates and takes logarithms with one base: e for the LogNormal family, 10 for the Log10Normal family, both when drawing and when evaluating its density. Truncated samplers draw from a normal truncated at exactly their lower and upper parameters expressed on the scale that is drawn (with a finite stand-in only for the logarithm of zero), with location and width equal to their parameters.',
 ['inputs','configurations'],'every log or truncated sampler/distribution and every parameter value',
 'Tests use one parameter set per class; a base mix-up can still satisfy a loose assertion.',
 ['popsynth/aux_samplers/','popsynth/distributions/log_normal_distribution.py','popsynth/distributions/log10_normal_distribution.py'],
 [('true_sampler / draw_luminosity / phi','popsynth/aux_samplers/*lognormal*.py, trunc*.py; popsynth/distributions/log*_normal_distribution.py')],[],['true_values','draw_luminosity','phi'])

prop('C21','Every draw returns exactly the requested number of objects',
 'For every built-in sampler, luminosity distribution, spatial distribution and selection, drawing with size n produces exactly n values (true values, observed values, luminosities, distances, angles, probabilities, selection entries), for every n including zero and one, with one independent random draw per object and a boolean selection mask.',
 ['inputs','configurations'],'every n >= 0, every class and every parameter setting',
 'Tests use a few sizes on some of the classes.',
 ['popsynth/aux_samplers/','popsynth/distributions/',DIST,AUX,SEL],[('size arguments of the random draws','all samplers')],[],['true_values','obs_values','draw_luminosity','distances','theta','phi','selection'])

prop('C22','Every built-in class can be found under its own unique registry name',
 'Every built-in distribution, auxiliary sampler and selection that a synth can contain registers itself under a name that no other class of its registry uses, the name written when a synth is saved is the name it is registered under, importing the package registers all of them, and the functions that list the available classes print every name.',
 ['programs','configurations'],'every built-in class, and every class derived from it',
 'The registry test prints the contents; it does not check uniqueness or the link to saved files.',
 ['popsynth/utils/registry.py',DIST,AUX,SEL,'popsynth/distributions/','popsynth/aux_samplers/'],[('class-level names and registries','popsynth/utils/registry.py and class definitions')],[],['registries','saved synth files'])

prop('C23','Only the requested files are touched and input files cannot run code',
 'The package writes only to the path the caller names (populations and synths) and to its own configuration and log folders; reading a synth file uses a loader that cannot construct arbitrary objects, and nothing read from a file is evaluated, executed, imported or unpickled. Appending a population to an existing file never truncates that file, reading never modifies it, and file handles are closed on every path.',
 ['inputs','configurations'],'every file content and every path',
 'Tests read their own benign files only.',
 [PS,POP,'popsynth/utils/'],[('open/h5py/yaml calls',PS+', '+POP+', popsynth/utils/configuration.py, popsynth/utils/package_data.py')],[],['from_file','write_to','writeto','addto'])

prop('C24','Misuse of the building API is rejected and leaves the synth unchanged',
 'Passing an object of the wrong kind as spatial or luminosity distribution, as a selection or as an auxiliary sampler, adding a second sampler with a name already in use, adding a sampler that is already a secondary of another, declaring a class with two normalisation parameters, or drawing a survey with no source of luminosity at all, raises an error; the failing call leaves the synth (or sampler) exactly as it was.',
 ['inputs','histories'],'every argument and every prior configuration',
 'Tests cover some of the rejections and do not look at the state afterwards.',
 [PS,AUX],[('type and state guards',PS+': __init__, add_observed_quantity, set_*_selection, add_spatial_selector, draw_survey; '+AUX+': set_selection_probability')],[],['PopulationSynth building methods','AuxiliarySampler.set_selection_probability'])

prop('C25','Logging and progress modes are restored by their counterparts',
 'Re-activating logs after silencing them (any number of times, through either entry point) restores the console and file levels that were in force before the first silencing; quiet and loud mode set both the progress-bar flag and the log levels; warning suppression and activation are inverses; and a temporarily silenced console gets its levels back on every exit, including by exception.',
 ['histories','fault_sequences'],'every sequence of mode switches, with exceptions inside temporary silencing',
 'The log tests call the functions once and do not read levels back.',
 ['popsynth/utils/logging.py','popsynth/utils/progress_bar.py'],[('saved logging state','popsynth/utils/logging.py')],[],['handler levels','progress-bar flag'])

prop('C26','Every documented configuration value takes effect where it is used',
 'The cosmology used in all distance and volume computations is built from the configured matter density and Hubble constant, console, file and debug logging follow their configured switches and levels, and progress bars follow the progress setting; a user\'s configuration file overrides the defaults, changing the matter density or Hubble constant of the cosmology changes all later computations, and a missing file is created with the defaults without overwriting an existing one.',
 ['configurations'],'every configuration file content',
 'The configuration test reads one setting; most combinations are only evaluated at import.',
 ['popsynth/utils/configuration.py','popsynth/utils/cosmology.py','popsynth/utils/logging.py','popsynth/utils/progress_bar.py'],[('structured configuration and its readers','popsynth/utils/configuration.py')],[],['popsynth_config','cosmology','log handlers'])

prop('C27','The truth record covers everything that was simulated',
 'The truth of a population holds, under each component\'s own name, the parameter values actually used for the spatial distribution, for the luminosity distribution or the derived-luminosity sampler, and for every auxiliary sampler, including secondaries at every nesting depth. Parameters left at their defaults are included.',
 ['configurations'],'every synth configuration',
 'Tests check one truth entry.',
 [PS,AUX,DIST],[('truth collection',PS+': draw_survey')],[],['Population.truth'])

prop('C28','The model graph shows every dependency and nothing stale',
 'The graph of a synth or population has a node for the spatial distribution, for the luminosity source, for the observed flux and for each sampler at every depth, an edge from each secondary to its parent, from each observed sampler to its observed quantity, from the spatial distribution to each sampler that uses distance, and from spatial distribution and luminosity source to the observed flux. Samplers that are no longer attached do not appear, and asking for the graph never fails for a synth that can be drawn.',
 ['configurations','histories'],'every synth configuration and history of adding and cleaning',
 'Tests build one graph.',
 [PS,AUX],[('graph construction',PS+': graph; '+AUX+': get_secondary_properties')],[],['PopulationSynth.graph','Population.graph'])

prop('C29','No public operation reads an undefined name or attribute',
 'Every name, own attribute and local variable that library code reads when a public operation is used is defined on all paths leading to that read. This covers every public function, method, property and constructor, on objects that are configured, drawn, reset, saved and reloaded as the interface intends, and error paths too: a refused operation fails with the error it means to raise. (Using an object before the operation that computes its values, such as reading the luminosities of a distribution never drawn, is misuse and not covered.)',
 ['programs','inputs'],'every public operation on every path, including error and rarely used paths',
 'Tests execute a fraction of the paths.',
 ['popsynth/'],[('definitions and uses','all modules')],[],['AttributeError / NameError / UnboundLocalError'])

prop('C30','Luminosities and sampler values follow the density that is stated',
 'For every built-in luminosity distribution and auxiliary sampler, the value drawn for each object is its own, independent draw from the stated density with the configured parameters (the inverse of its cumulative distribution at a uniform variate, or the corresponding transform of a normal, Pareto, gamma or Bernoulli variate), including whole-number parameters and the logarithmic limits of power laws; and the density a luminosity distribution reports for an object, and stores as its draw probability, is that same density: normalised over its support, evaluated at the object\'s own luminosity, also for whole-number luminosities.',
 ['inputs','configurations'],'every parameter setting and every number of objects',
 'Tests draw one parameter setting each and look at no distribution; wrong exponents, truncated integers or a missing factor still give plausible numbers.',
 ['popsynth/distributions/','popsynth/aux_samplers/',DIST],[('phi and draw_luminosity','popsynth/distributions/*.py'),('true_sampler','popsynth/aux_samplers/*.py'),('probability',DIST+': LuminosityDistribution.compute_probability')],[],['phi','draw_luminosity','probability','true_values'])

prop('C31','The rejection envelope bounds the rate everywhere',
 'The maximum used as the height of the rejection box is an upper bound of the rate over the whole distance range, so that drawn distances follow the rate exactly.',
 ['inputs','configurations'],'every spatial distribution and parameter setting',
 'A numerical statement about the maximum of arbitrary user functions on a grid.',
 [DIST],[('grid maximum',DIST+': draw_distance')],[],['SpatialDistribution.draw_distance'])
prop('C32','Cosmological distances and volumes are numerically accurate',
 'Luminosity distance and comoving volume agree with a flat LambdaCDM reference within one percent for all redshifts and supported cosmologies.',
 ['inputs','configurations'],'every redshift and matter density',
 'A numerical approximation bound.',
 ['popsynth/utils/cosmology.py'],[('Pade approximation','popsynth/utils/cosmology.py')],[],['cosmology.luminosity_distance'])
prop('C33','Plots and accessors show the quantity and the objects they name',
 'Every accessor of a population (deprecated names included) returns the quantity its name announces for the objects it announces (all, detected, hidden; true or observed). Each display routine hands to the plotting library the quantity that its name and axis labels announce: fluxes against distances, true or observed, of the detected or the hidden objects, both coordinates of a point belonging to the same object, arrows leading from the true to the observed flux of one object, and positions on the sphere computed from the objects\' own distance and angles; nothing else is drawn as data.',
 ['inputs'],'every population, selection and set of known distances',
 'Plots are only smoke-tested and most accessors are not read by any test.',
 [POP],[('accessors and display_*',POP)],[],['Population accessors','display_* methods','arguments of plotting calls'])
prop('C34','Probabilistic selections keep each object with the stated probability',
 'A soft selection detects each object independently with probability equal to the inverse logit of strength times the distance of that object\'s own quantity from the boundary (in log10 or linearly, as configured); a Bernoulli selection detects each object independently with the configured probability. This holds alone and inside a survey, for every quantity the selection can judge, with and without progress bars.',
 ['inputs','configurations'],'every boundary, strength, probability, quantity and number of objects',
 'Tests call a soft selection once and cannot tell one probability or dependence between objects from another.',
 [SEL,DIST],[('soft selection',SEL+'generic_selectors.py'),('Bernoulli selection',SEL+'generic_selectors.py')],[],['selection'])
prop('C35','Volumes, densities, time dilation and fluxes follow the documented formulas',
 'For every built-in spatial distribution the density, the differential volume, the time adjustment (dilation of rates) and the transformation from luminosity to flux are the documented functions of the distance and of the configured parameters, for scalars and arrays and also for whole-number distances and parameters; the cosmological quantities satisfy the relations that define them (luminosity, transverse and angular distance, differential comoving volume, expansion rate with radiation terms in a flat universe, and the published approximant) for every matter density and Hubble constant.',
 ['inputs','configurations'],'every distance, parameter setting, matter density and Hubble constant',
 'Tests evaluate no density or volume against a formula; a factor or exponent that is wrong still gives plausible surveys.',
 ['popsynth/distributions/','popsynth/utils/cosmology.py'],[('spatial distributions','popsynth/distributions/*.py'),('cosmology','popsynth/utils/cosmology.py')],[],['dNdV','differential_volume','time_adjustment','transform','cosmology functions'])
prop('C36','A population describes the survey it came from, and a sub-population the objects it was made of',
 'The population returned by a survey carries the name, seed, forms, parameters, maximum distance, flux uncertainty, model grids, positions and description of the very synth that drew it, as they were at the draw. A sub-population, of the detected or of the hidden objects, holds for every quantity (luminosities, distances, angles, fluxes, draw probabilities, auxiliary quantities; true and observed values alike) exactly the values of the chosen objects in the same order, counts them all as detected, and repeats the description of its parent; taking the sub-population of a sub-population changes nothing.',
 ['configurations','inputs'],'every synth configuration, survey option and selection',
 'Tests build one sub-population and compare no values.',
 [PS,POP],[('assembly',PS+': draw_survey'),('to_sub_population',POP)],[],['Population attributes','Population.to_sub_population'])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'properties.jsonl')
with open(out,'w') as f:
    for p in P: f.write(json.dumps(p)+'\n')
print(len(P))
