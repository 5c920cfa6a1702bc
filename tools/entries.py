SIMTECH = ('Sampled, not exhaustive: seeded schedules and faults over generated '
           'small configurations. Trusts the simulator (dst/sim.py), numpy and '
           'the Python standard library; images are 18x18, DMs 6x6. ')
UNIT = ('The unit tests run one configuration, mostly serially, and never '
        'control the interleaving of worker threads or processes. ')

prop('C01', 'Parallel image generation gives the serial images',
     'For every coronagraph configuration, the band-averaged and sub-band '
     'images computed with parallel processing enabled equal the images '
     'computed serially from the same model, whatever the worker '
     'interleaving, the number of workers, sub-bands, wavelengths, stars, '
     'polarization states and noise setting.',
     ['schedules', 'configurations'],
     'all interleavings of the image workers; all combinations of layout, '
     'coronagraph type, sub-bands, wavelengths per sub-band, stars, '
     'polarization states, noise, DM subset, worker count',
     UNIT + 'Workers share the model object, so a wrong result needs a '
     'particular switch between writing and reading shared state.',
     ['falco/imaging.py', 'falco/model/models.py'],
     [('thread pool over wavelengths/polarizations', 'falco.imaging.get_summed_image, get_sbp_image'),
      ('private per-thread model copies', 'falco.model.models.full, falco.imaging')],
     [('mp.full.polaxis', 'polarization state in use', 'mp.full'),
      ('mp.F3.full.mask', 'occulter in use', 'mp.F3.full')],
     ['returned image arrays'],
     SIMTECH + 'Oracle: the serial image, 1e-9 of its peak.',
     'seeded interleavings of the image worker threads, parallel-versus-serial oracle')

prop('C02', 'Parallel normalization and perfect estimate equal the serial ones',
     'The intensity normalization of every sub-band and star and the perfect '
     'field estimate (fields and modulated/unmodulated intensities) computed '
     'with parallel processing equal those computed serially from the same '
     'model, for every worker interleaving and configuration.',
     ['schedules', 'configurations'],
     'all interleavings of the workers; sub-bands, wavelengths, stars, '
     'Zernike modes, layouts, worker counts',
     UNIT + 'Parallel results are reassembled by index from futures; the '
     'tests only use one star and never reorder completions.',
     ['falco/imaging.py', 'falco/est.py'],
     [('thread pool over (sub-band, wavelength, star)', 'falco.imaging.calc_psf_norm_factor'),
      ('thread pool over (mode, star)', 'falco.est.perfect')],
     [], ['mp.Fend.*.I00', 'ev.Eest, ev.Im, ev.IincoEst'],
     SIMTECH + 'Oracle: the serial computation, 1e-9 relative.',
     'seeded interleavings of the worker threads, parallel-versus-serial oracle')

prop('C03', 'The control Jacobian computed in parallel equals the serial one',
     'For every coronagraph type, set of DMs, active-actuator subset, tied '
     'actuators, sub-bands, Zernike modes and stars, the Jacobian computed '
     'with parallel workers has the same shape and values as the serial '
     'Jacobian, for every interleaving of the workers.',
     ['schedules', 'configurations'],
     'all worker interleavings; all active-actuator subsets and DM subsets',
     UNIT + 'They use the full actuator set and both DMs.',
     ['falco/model/jacobian.py', 'falco/model/jacobians.py'],
     [('futures per (mode, actuator), reassembly into columns',
       'falco.model.jacobian'),
      ('tied-actuator column merge', 'falco.model.jacobian')],
     [], ['jacStruct.G1, jacStruct.G2'],
     SIMTECH + 'Oracle: the serial Jacobian, 1e-9 relative.',
     'seeded interleavings of the worker threads, parallel-versus-serial oracle')

prop('C04', 'Zernike sensitivities: parallel equals serial, model unchanged',
     'The Zernike sensitivities computed by parallel workers equal the serial '
     'ones for any set of Zernike modes, annuli, wavelengths and worker '
     'interleaving. Computing them leaves the model as it was: images and '
     'sensitivities computed afterwards are unaffected.',
     ['schedules', 'configurations', 'histories'],
     'all interleavings of worker processes/threads; all mode sets; '
     'histories of sensitivity and image calls',
     UNIT + 'They evaluate one set of modes once and never look at the model '
     'afterwards.',
     ['falco/zern.py'],
     [('worker pool over (wavelength, Zernike mode)', 'falco.zern.calc_zern_sens'),
      ('private aberrated model copies', 'falco.zern')],
     [], ['returned sensitivity array', 'later images'],
     SIMTECH + 'Worker processes are simulated (separate module state, '
     'pickled arguments). Oracle: serial result, 1e-9 relative.',
     'seeded interleavings of simulated worker processes, parallel-versus-serial oracle')

prop('C05', 'A control step chooses the same command in parallel as serially',
     'For every controller, regularization grid, DM gain grid and '
     'configuration, a control step with parallel processing evaluates the '
     'same trial intensities, chooses the same regularization and applies '
     'the same DM commands as the serial step, for every interleaving of the '
     'workers; the stored image is that of the chosen command.',
     ['schedules', 'configurations'],
     'all worker interleavings; controllers; model-based and image-based '
     'evaluation; grid shapes; coronagraph types; Zernike modes',
     UNIT + 'They never run the grid search in parallel and compare.',
     ['falco/ctrl.py'],
     [('worker pool over (regularization, gain)', 'falco.ctrl._grid_search_efc'),
      ('choice of the smallest intensity', 'falco.ctrl._grid_search_efc')],
     [('mp.dm1.V, mp.dm2.V', 'DM commands', 'mp')],
     ['cvar.InormVec, cvar.log10regUsed, cvar.cMin, cvar.Im', 'mp.dm*.V, dV'],
     SIMTECH + 'Oracle: the serial control step on a copy, 1e-6 relative; '
     'near-ties of the best trial are skipped.',
     'seeded interleavings of simulated worker processes and threads, '
     'parallel-versus-serial oracle')

prop('C06', 'A whole wavefront-control trial has the same history in parallel',
     'For every configuration of estimator, controller, schedule, stars and '
     'Zernike modes, the recorded histories (intensities, DM commands, '
     'regularizations, throughput, sensitivities) and final DM commands of a '
     'WFSC trial run with parallel processing equal those of the serial '
     'trial, for every interleaving of the workers.',
     ['schedules', 'configurations', 'histories'],
     'all worker interleavings over all iterations of a trial',
     UNIT + 'No test runs the whole loop twice to compare.',
     ['falco/wfsc.py', 'falco/est.py', 'falco/ctrl.py', 'falco/imaging.py',
      'falco/model/jacobian.py', 'falco/zern.py'],
     [('iteration: model, Jacobian, estimate, control, record', 'falco.wfsc.loop')],
     [('out', 'histories of the trial', 'falco.wfsc.loop')],
     ['out.*', 'mp.dm*.V'],
     SIMTECH + 'Oracle: the serial trial on a copy, 1e-6 relative.',
     'seeded interleavings of all workers during whole trials, '
     'parallel-versus-serial oracle')

prop('C09', 'Estimation leaves the DMs as found, also when it fails',
     'After an electric-field estimation (perfect or pairwise, serial or '
     'parallel, simulated or testbed images) the DM commands, pinned/tied/dead '
     'actuators and the set of DMs used for control are those before it. The '
     'same holds when an image, model evaluation or solve in it fails: the '
     'failure reaches the caller, and repeating the estimation then gives the '
     'estimate of an undisturbed one.',
     ['crash points', 'configurations', 'histories'],
     'failures at every image, model evaluation, DM surface and solve of an '
     'acquisition; all estimators, probe settings and actuator constraints; '
     'histories of failed and repeated acquisitions',
     'The unit tests inspect estimates of one successful acquisition; none '
     'fails an exposure half-way or looks at the DMs afterwards.',
     ['falco/est.py', 'falco/dm.py'],
     [('probing: command, image, restore', 'falco.est.pairwise_probing'),
      ('DM surface from command', 'falco.dm.gen_surf_from_act')],
     [('mp.dm1.V, mp.dm2.V, mp.dm_ind', 'DM commands and DMs in use', 'mp')],
     ['mp.dm*.V, mp.dm_ind, mp.dm*.pinned', 'ev.Eest', 'the exception raised'],
     SIMTECH + 'Failures are raised at call sites of public functions '
     '(image, model, surface, pinv).',
     'failures injected at a seeded call of an acquisition; state and retry '
     'compared with an undisturbed run')

prop('C27', 'Pairwise probing follows the protocol and estimates from it',
     'In each sub-band one unprobed and 2*Npairs probed images are taken, the '
     'unprobed first; probe commands come in opposite pairs, differ between '
     'pairs, are added to the command of the probing DM only and follow the '
     'scheduled probe settings of the iteration. The recorded images and DM '
     'commands are those of the exposures, and the estimate is the batch '
     'least-squares solution from exactly these images, with probe phases of '
     'the compact model or the Jacobian, whatever disturbs the images.',
     ['configurations', 'histories', 'inputs'],
     'all probe settings and schedules, sub-bands, DM subsets, disturbed '
     'images; serial and parallel image generation',
     'The unit tests compare the estimate with the true field for one '
     'noiseless configuration within a loose tolerance.',
     ['falco/est.py', 'falco/imaging.py', 'falco/model/models.py'],
     [('probe sequence and batch estimate', 'falco.est._pairwise_probing'),
      ('probe shapes', 'falco.est.gen_pairwise_probe_square, gen_pairwise_probe')],
     [('ev.imageArray, ev.dm1.Vall', 'recorded exposures', 'ev')],
     ['exposures at the testbed camera seam', 'ev.Eest, ev.IincoEst, ev.Im'],
     SIMTECH + 'Oracle: an independent statement of the estimator in the '
     'scenario; pixels with ill-conditioned probes are skipped.',
     'simulated camera that records each exposure and disturbs images; '
     'history checked against the protocol and an independent estimator')

prop('C10', 'A control step is a transaction on the DM commands',
     'A control step either applies one of the commands it tried, the one '
     'with the lowest recorded intensity of the scheduled choice, or, when '
     'an image, model evaluation, DM surface or solve in it fails, raises '
     'that failure and leaves the DM commands as they were before the step; '
     'repeating the failed step then applies the command of an undisturbed '
     'step.',
     ['crash points', 'configurations', 'histories'],
     'failures at every image, model evaluation, surface and solve of a step; '
     'controllers, regularization and gain grids, constraints, parallel and '
     'serial evaluation',
     'The unit tests run undisturbed steps; none fails a trial half-way and '
     'looks at the DMs or repeats the step.',
     ['falco/ctrl.py'],
     [('trial commands applied, evaluated, withdrawn', 'falco.ctrl._efc, _ad_efc'),
      ('grid search and choice', 'falco.ctrl._grid_search_efc, _planned_efc')],
     [('mp.dm1.V, mp.dm2.V', 'DM commands', 'mp')],
     ['mp.dm*.V after ctrl.wrapper', 'the exception raised',
      'exposures at the testbed camera seam'],
     SIMTECH + 'Failures are raised at call sites of public functions.',
     'failures injected at a seeded call of a control step; state, retry and '
     'recorded exposures compared')

prop('C11', 'Evaluations leave the model as it was, also when they fail',
     'Computing images, normalized model fields, throughput, Zernike '
     'sensitivities, DM surfaces, statistics, a perfect estimate or a '
     'Jacobian gives the same result whatever evaluations, successful or '
     'failed, were made before from the same model, and leaves the DM commands '
     'and every setting of the model as they were.',
     ['histories', 'crash points', 'configurations'],
     'histories of evaluations in any order, serial and parallel; failures '
     'at seeded calls within an evaluation',
     'The unit tests build a fresh model for each evaluation and never fail one.',
     ['falco/imaging.py', 'falco/model/models.py', 'falco/zern.py', 'falco/dm.py',
      'falco/est.py'],
     [('temporary changes of the model settings for one evaluation',
       'falco.imaging, falco.zern, falco.model')],
     [('mp.*', 'model settings, DM commands', 'mp')],
     ['returned arrays of repeated evaluations', 'mp.dm*.V'],
     SIMTECH + 'Oracle: the same evaluation of an untouched copy.',
     'seeded histories of evaluations with injected failures, compared with '
     'evaluations of an untouched model')

prop('C12', 'The recorded histories are those of the exposures and commands',
     'What a WFSC trial records (DM commands, peak-to-valley, measured, '
     'modulated and unmodulated intensities, corrected and scored regions, '
     'per-sub-band values, final image) equals what the camera delivered and '
     'what was on the DMs at that iteration, whatever light, noise or drift '
     'the camera adds; modulated plus unmodulated intensity is the measured '
     'intensity.',
     ['configurations', 'histories', 'inputs'],
     'all estimators, controllers, schedules, sub-bands, DM subsets, camera '
     'disturbances, over all iterations of a trial',
     'The unit tests check a few final numbers of one model-based trial '
     'without a camera that deviates from the model.',
     ['falco/wfsc.py', 'falco/est.py', 'falco/ctrl.py'],
     [('iteration bookkeeping', 'falco.wfsc.loop, store_intensities')],
     [('out', 'histories of the trial', 'falco.wfsc.loop')],
     ['exposures at the camera seam', 'out.*'],
     SIMTECH + 'Excludes actuator constraints (see C14).',
     'simulated camera that records and disturbs every exposure; recorded '
     'history checked against the exposures')

prop('C13', 'A trial follows its schedule',
     'The commands, intensities and regularizations of a WFSC trial are those '
     'of a straightforward reference loop: at each iteration the Jacobian is '
     'linearized when scheduled at the command of that iteration, actuators '
     'are culled and constrained, the scheduled DMs are used, the EFC system '
     'is solved with the scheduled regularization, and the best trial is '
     'applied.',
     ['configurations', 'histories'],
     'all schedules (rows, DM sets, regularizations, relinearizations, '
     'zero-iteration rows), controllers, estimators, constraints',
     'The unit tests follow one schedule with one set of DMs.',
     ['falco/wfsc.py', 'falco/ctrl.py', 'falco/config/ModelParameters.py'],
     [('schedule expansion', 'falco.ctrl, falco.setup'),
      ('cull_weak_actuators, relinearization', 'falco.ctrl.cull_weak_actuators, falco.wfsc.loop')],
     [('mp.dm_ind_sched, mp.log10regSchedIn, mp.gridSearchItrVec, mp.relinItrVec',
       'schedule', 'mp')],
     ['out.dm1.Vall, out.IrawCorrHist, out.log10regHist'],
     SIMTECH + 'Oracle: dst/refloop.py, an independent loop that uses the '
     'Jacobian and image functions but no control code.',
     'seeded trials refining an executable reference model of the loop')

prop('C14', 'Actuator constraints hold after every iteration',
     'After every control iteration, also one that failed, dead actuators '
     'hold zero, pinned actuators hold their set value, tied actuators hold '
     'equal commands (also through chains of ties), no total voltage is '
     'outside the limits, and DMs not in use keep their command.',
     ['configurations', 'histories', 'crash points'],
     'all sets of dead, pinned and tied actuators, limits, facesheet bias, '
     'DM subsets, controllers; interrupted iterations',
     'The unit tests apply the constraints to single commands, not over '
     'trials that rail actuators.',
     ['falco/dm.py', 'falco/ctrl.py', 'falco/wfsc.py'],
     [('enforce_constraints', 'falco.dm.enforce_constraints'),
      ('tied columns merged', 'falco.model.jacobian')],
     [('mp.dm*.pinned, dead, tied, Vmin, Vmax', 'constraints', 'mp')],
     ['mp.dm*.V at every camera exposure and after the trial', 'out.dm*.Vall'],
     SIMTECH, 'seeded trials with injected failures; constraint invariants checked '
     'at every iteration')

prop('C28', 'A control step does not use up its inputs',
     'A control step leaves the Jacobian and the field estimate handed to it '
     'unchanged, so that a step repeated from the same command, Jacobian and '
     'estimate gives the same command again, also after a failed attempt.',
     ['histories', 'crash points', 'configurations'],
     'repeated and failed steps; spatial weights, stars, Zernike modes, '
     'controllers, serial and parallel evaluation',
     'The unit tests use a Jacobian once.',
     ['falco/ctrl.py'],
     [('weighting of the Jacobian', 'falco.ctrl.wrapper, falco.ctrl._efc')],
     [('jacStruct.G1, G2', 'Jacobian', 'jacStruct'), ('ev.Eest', 'estimate', 'ev')],
     ['jacStruct.G*, ev.Eest, mp.dm*.V'],
     SIMTECH, 'seeded histories of repeated control steps with injected failures')

prop('C21', 'Plots show the trial and never take part in it',
     'With progress plots switched on, a model is set up and a WFSC trial '
     'runs exactly as without them: the same images, estimates, commands, '
     'records and random numbers, also for images with negative pixels. The '
     'plots show the image, probe images, DM surfaces and change of the '
     'field of their iteration, and a drawing call that fails leaves no '
     'probe or trial command on the DMs.',
     ['configurations', 'fault sequences', 'histories'],
     'all estimators, controllers, coronagraphs, stars, noise and '
     'dark-subtracted images; any drawing call failing; showing saved snippets',
     'The unit tests run without plots.',
     ['falco/plot.py', 'falco/setup.py', 'falco/imaging.py', 'falco/est.py',
      'falco/wfsc.py'],
     [('progress plots', 'falco.plot.wfsc_progress, pairwise_probes, delta_efield'),
      ('mask and normalization plots', 'falco.setup.plot_superimposed_pupil_masks, '
       'falco.imaging.calc_psf_norm_factor')],
     [('ev.imageArray, ev.Im, mp.dm*.V', 'data shown', 'falco.est, falco.wfsc')],
     ['out.*, mp.*, ev.*, np.random state; arrays given to pyplot'],
     SIMTECH + 'pyplot is a recording stub that can fail at any call, or the real '
     'library with the Agg backend.',
     'seeded trials with and without plots, injected drawing failures')

prop('C15', 'The data snippet of a trial survives crashes and disk failures',
     'While a WFSC trial runs, its data snippet on disk is at any moment '
     'absent (before the first save) or the complete, loadable record of the '
     'trial up to the last saved iteration, whenever the process dies, the '
     'power fails or the disk is full or broken; every iteration is saved, a '
     'failing disk is reported, and a trial repeated in the same directory '
     'is not disturbed by what a crash left.',
     ['crash points', 'fault sequences', 'configurations'],
     'every write, create, rename and fsync of every save; torn and lost '
     'writes, ENOSPC, EIO, death between any two steps of an iteration',
     'The unit tests never interrupt a save; the record of hours of work '
     'was lost when the second save was interrupted.',
     ['falco/wfsc.py', 'falco/util.py'],
     [('snippet saved per iteration', 'falco.wfsc.loop'),
      ('write to a temporary file, fsync, rename', 'falco.util.atomic_write')],
     [('out', 'record of the trial', 'falco.config.Object')],
     ['<mp.path.brief>/<runLabel>_snippet.pkl'],
     SIMTECH + 'The disk is simulated at Python\'s file API; a renamed file '
     'that was not fsynced may be empty after a power failure.',
     'injected crashes, power failures and disk errors at seeded file events')

prop('C26', 'A YAML-configured model is the Python-configured model',
     'A model configured by YAML (with lazy !eval expressions referring to '
     'other parameters) gives the same trial, serial, parallel, copied or '
     'pickled, as the same model configured in Python; configurations parsed '
     'or evaluated in several threads at once do not affect each other, a '
     'copy is independent of its original, and a circular definition is '
     'reported, not only in one thread.',
     ['schedules', 'configurations'],
     'all interleavings of threads that parse, evaluate and copy '
     'configurations; all expression graphs',
     UNIT + 'The unit tests parse one file in one thread.',
     ['falco/config/ModelParameters.py', 'falco/config/Eval.py',
      'falco/config/Object.py', 'falco/config/yaml_loader.py'],
     [('lazy expressions', 'falco.config.Eval'),
      ('YAML constructors', 'falco.config.ModelParameters.from_yaml'),
      ('attribute lookup evaluates', 'falco.config.Object.__getattr__')],
     [('Eval in-progress marks', 'circularity detection', 'falco.config.Eval')],
     ['mp.* as read', 'histories of the trial'],
     SIMTECH, 'seeded interleavings of parsing, evaluating and copying threads; '
     'parallel and serial YAML trials against the Python-configured trial')

prop('C16', 'A trial can be continued from its snippet after a crash',
     'A trial that dies at any moment can be continued by a new process from '
     'the DM commands in its data snippet: the continued trial goes through '
     'the same commands, images and normalized intensities as the trial that '
     'was never interrupted, also when it is interrupted more than once.',
     ['crash points', 'histories', 'configurations'],
     'death by exception, process kill or power failure at any camera '
     'exposure, evaluation, or file operation; one or two restarts; all '
     'coronagraphs, controllers, estimators, schedules',
     'The unit tests never continue a trial.',
     ['falco/wfsc.py', 'falco/util.py', 'falco/ctrl.py', 'falco/est.py'],
     [('snippet saved per iteration', 'falco.wfsc.loop'),
      ('commands recorded at the start of an iteration',
       'falco.wfsc._store_dm_command_history')],
     [('out.dm*.Vall', 'commands per iteration', 'out'),
      ('<runLabel>_snippet.pkl', 'durable record', 'disk')],
     ['out.dm*.Vall, out.InormHist, out.thput of the continued trial'],
     SIMTECH + 'Runs in which an actuator hits its voltage limit are skipped: '
     'pinned actuators are not part of the snippet.',
     'injected crashes at seeded points, restart from the durable state, '
     'comparison with the uninterrupted history')

prop('C17', 'The saved workspace is complete and replaced at once',
     'When workspace saving is on, the workspace files of a trial are at any '
     'moment absent or complete and loadable, whenever the process dies or '
     'the disk fails; a finished trial leaves a workspace whose every value '
     'is that of the trial, from which the images of the trial are obtained '
     'again; a failing disk is reported.',
     ['crash points', 'fault sequences', 'configurations'],
     'every file operation of the save: torn and lost writes, ENOSPC, EIO, '
     'death between any two; Python and YAML models, serial and parallel',
     'The unit tests never load a workspace that was saved.',
     ['falco/wfsc.py', 'falco/util.py', 'falco/config/Object.py'],
     [('workspace saved at the end of a trial', 'falco.wfsc.loop'),
      ('write to a temporary file, fsync, rename', 'falco.util.atomic_write'),
      ('pickling of lazy parameters', 'falco.config.Object')],
     [('mp, out', 'model and record of the trial', 'workspace file')],
     ['files in mp.path.ws, values and images of the loaded model'],
     SIMTECH, 'injected crashes, power failures and disk errors at seeded file '
     'events; loaded workspace against the live objects')

prop('C18', 'Jacobian slices of separate processes give the whole Jacobian',
     'The control Jacobian put together from slices that separate processes '
     'computed and wrote to disk equals the Jacobian computed in one go, for '
     'every interleaving and number of the processes; when processes die or '
     'their disk fails, the reassembly reports it or, after the missing '
     'slices were computed again, gives the same Jacobian; it never returns '
     'one with wrong or missing columns.',
     ['schedules', 'crash points', 'configurations'],
     'all interleavings of the processes; death and disk failure of any of '
     'them at any file event; repeated slices; active DMs and actuators, '
     'modes, numbers of slices',
     'The unit tests compute slices one after the other and never lose one.',
     ['falco/model/models.py', 'falco/util.py'],
     [('slices written to disk', 'falco.model.models.write_jac_slices'),
      ('slices put together', 'falco.model.models.reassemble_jac_from_slices')],
     [('slice files', 'columns of the Jacobian', 'disk')],
     ['returned jacStruct.G1, G2'],
     SIMTECH, 'seeded interleavings of simulated processes with injected deaths '
     'and disk errors; whole-Jacobian oracle')

prop('C07', 'Independent models can be used in concurrent threads',
     'Threads of one process that work on different models at the same time '
     '(images, normalization, throughput, Jacobian, estimate, Zernike '
     'sensitivities, a whole trial) each get what they get when they run '
     'alone, for every interleaving, also when the calculations themselves '
     'use worker threads or processes.',
     ['schedules', 'configurations'],
     'all interleavings of two or three threads with different models and calculations',
     'The unit tests never use two models at once.',
     ['falco/imaging.py', 'falco/model/models.py', 'falco/est.py', 'falco/ctrl.py',
      'falco/dm.py', 'falco/propcustom/propcustom_dm.py', 'falco/wfsc.py', 'falco/zern.py'],
     [('no state outside the model object', 'falco'),
      ('DM surface generation', 'falco.dm.gen_surf_from_act')],
     [('module-level data', 'shared by all threads', 'falco, falco.proper')],
     ['images, normalizations, Jacobians, estimates, sensitivities, histories'],
     SIMTECH + 'Full models with a PROPER prescription are excluded: PROPER keeps its '
     'state in module variables by design.',
     'seeded interleavings of independent threads, run-alone oracle')

prop('C08', 'Parallel prescription runs give what they give one by one',
     'proper.prop_run_multi returns, in order, the fields and samplings that '
     'proper.prop_run gives for each wavelength and parameter set, whatever '
     'the number and interleaving of the worker processes and the number of '
     'elements; a failing prescription is reported to the caller, and no '
     'worker processes are left behind.',
     ['schedules', 'fault sequences', 'configurations'],
     'all interleavings of the workers; lists of wavelengths or parameters or '
     'both; failing elements; numbers of workers',
     'The unit tests never make a prescription fail, nor control the order in '
     'which the workers finish.',
     ['falco/proper/prop_run_multi.py', 'falco/proper/prop_execute_multi.py',
      'falco/proper/prop_run.py'],
     [('pool of processes, one per element', 'falco.proper.prop_run_multi')],
     [], ['returned fields and samplings', 'live worker processes'],
     SIMTECH, 'seeded interleavings of simulated worker processes with failing '
     'prescriptions, one-by-one oracle')

prop('C19', 'Saved PROPER states do not change what a prescription gives',
     'A prescription that saves and restores its intermediate state gives the '
     'same fields and samplings as one that computes everything, in one or '
     'several concurrent processes of the same directory, for single and '
     'parallel runs, after failures, crashes and clock changes; ending a '
     'session removes its files and no others.',
     ['schedules', 'crash points', 'fault sequences', 'histories'],
     'interleavings of processes and workers; death, ENOSPC, EIO at any file event; '
     'clock set back or forward; sequences of sessions and failing runs',
     'The unit tests never save states.',
     ['falco/proper/prop_state.py', 'falco/proper/prop_savestate.py',
      'falco/proper/prop_is_statesaved.py', 'falco/proper/prop_init_savestate.py',
      'falco/proper/prop_end_savestate.py'],
     [('state saved at first use, restored later', 'falco.proper.prop_state'),
      ('files named after the session', 'falco.proper.prop_init_savestate')],
     [('*_prop_savestate*.npz', 'saved wavefronts', 'working directory'),
      ('proper.save_state_lam', 'wavelengths saved', 'module state')],
     ['returned fields and samplings', 'files in the working directory'],
     SIMTECH, 'seeded interleavings of simulated processes, injected deaths, disk '
     'errors and clock jumps; no-state oracle')

prop('C24', 'A failure in a parallel worker is reported and leaves nothing behind',
     'When any propagation, DM-surface or solver call of a parallel '
     'calculation fails in a worker, the caller gets that failure instead of a '
     'result, the model is as it was before, no workers are left, and the '
     'same calculation done again gives the right result.',
     ['fault sequences', 'schedules', 'configurations'],
     'failure before or after any call in any worker, under all interleavings, '
     'in images, normalization, throughput, Jacobian, estimate, grid search and '
     'Zernike sensitivities',
     'The unit tests never make a worker fail.',
     ['falco/imaging.py', 'falco/est.py', 'falco/ctrl.py', 'falco/zern.py',
      'falco/model/jacobians.py', 'falco/model/models.py'],
     [('futures whose results are all read', 'falco.imaging, falco.est, falco.model'),
      ('pools closed on failure', 'falco.ctrl, falco.zern')],
     [], ['exceptions', 'live workers', 'every value of the model'],
     SIMTECH, 'failures injected at seeded calls in seeded interleavings; '
     'before/after comparison of the model and undisturbed oracle')

prop('C25', 'What a call gives does not depend on what was done before',
     'Mask functions, PROPER runs (single, parallel, with saved states), '
     'model set-up, images and whole trials give the same result at the end of '
     'any history of such calls in one process, including calls that failed '
     'half-way, as in a process that did nothing else; their arguments are left '
     'as they were.',
     ['histories', 'fault sequences', 'configurations'],
     'histories of up to seven calls of all these kinds, any of which may fail at any '
     'PROPER call',
     'The unit tests run each call in one fixed order and never make one fail.',
     ['falco/mask.py', 'falco/proper', 'falco/setup.py', 'falco/wfsc.py'],
     [('antialiasing setting restored', 'falco.mask'),
      ('module state set by each run', 'falco.proper.prop_run')],
     [('falco.proper module data', 'options of the current run', 'module state')],
     ['returned arrays, arguments'],
     SIMTECH, 'seeded histories of calls with injected failures, compared with the '
     'same call in an isolated process')

prop('C20', 'FITS files and error maps are complete, read back and reused',
     'An array or error map written to a FITS file is read back, or applied to '
     'a wavefront, scaled and shifted as asked for, exactly as it was written; readers in other processes, and '
     'after a crash or disk failure at any moment, find the previous or the new '
     'file, never a damaged one; a PSD error map once kept in a file is the one '
     'that all later calls use.',
     ['schedules', 'crash points', 'fault sequences', 'histories'],
     'interleavings of up to three processes that write, read, apply maps and '
     'keep PSD maps in the same files; death, power failure, ENOSPC, EIO at any file event',
     'The unit tests do not write files.',
     ['falco/proper/prop_fits_write.py', 'falco/proper/prop_fits_read.py',
      'falco/proper/prop_writemap.py', 'falco/proper/prop_readmap.py',
      'falco/proper/prop_errormap.py', 'falco/proper/prop_psd_errormap.py', 'falco/util.py'],
     [('write to a temporary file, fsync, rename', 'falco.util.atomic_path'),
      ('map generated once, kept in FILE', 'falco.proper.prop_psd_errormap')],
     [('*.fits', 'maps and images', 'disk')],
     ['arrays and headers read, wavefronts with maps applied'],
     SIMTECH + 'Two processes that generate the same PSD map for the first time at the same '
     'moment are not covered: each may use its own.',
     'seeded interleavings of simulated processes with injected deaths and disk '
     'errors; the history of reads is checked against that of the writes (register semantics)')

prop('C22', 'Thin-film tables kept on disk are those of the request',
     'The transmission or reflection tables for an HLC occulter are those of the '
     'requested materials, thicknesses, wavelengths, angle and reference height, '
     'whatever tables earlier or concurrent processes kept on disk for other or '
     'nearly equal parameters, and wherever those processes died or their disk failed.',
     ['histories', 'schedules', 'crash points', 'configurations'],
     'sequences of requests whose parameters differ slightly, from up to three '
     'processes; death, power failure, ENOSPC, EIO at any file event',
     'The unit tests never generate a table.',
     ['falco/thinfilm.py'],
     [('tables kept under a name with all inputs', 'falco.thinfilm.gen_complex_trans_table'),
      ('write to a temporary file, fsync, rename', 'falco.util.atomic_write')],
     [('data/material/ct_cube_*.npy', 'tables', 'disk')],
     ['returned tables'],
     SIMTECH + 'Oracle: calc_complex_trans_matrix called directly.',
     'seeded interleavings and histories of requests by simulated processes with '
     'injected deaths and disk errors; direct-computation oracle')

prop('C23', 'A seeded trial is repeated exactly, whatever the clock does',
     'A trial started from the same numpy seed and the same configuration gives '
     'the same commands, images and histories, photon noise included, in whatever '
     'directory, after whatever successful or failed calls were made before, '
     'and wherever the clock stands or jumps; a trial without '
     'noise leaves the global random state as it was.',
     ['histories', 'fault sequences', 'configurations'],
     'loop configurations with and without noise; clock jumps at any reading of the '
     'clock; earlier calls, some of which fail; schedules of the workers of noise-free trials',
     'The unit tests run no trial twice and never change the clock.',
     ['falco/wfsc.py', 'falco/imaging.py', 'falco/ctrl.py', 'falco/est.py'],
     [('noise drawn from the numpy stream in a fixed order', 'falco.imaging')],
     [('numpy global random state', 'stream of the noise', 'numpy.random')],
     ['commands, images, histories', 'numpy.random.get_state()'],
     SIMTECH + 'A parallel grid search with noise draws from one stream in several threads; '
     'it is not claimed.',
     'trials repeated under a simulated clock with jumps, other directories, schedules and '
     'histories with injected failures; compared exactly')

PURE = ('A pure function of its arguments: no schedule, clock, I/O, randomness or '
        'shared state for a simulator to control; deciding it needs numerical or '
        'property-based methods, not simulation with faults. ')

na('C80', 'Propagators conserve energy and invert each other',
   'Propagation between pupils and foci by FFT, matrix Fourier transform and Fresnel '
   'methods is linear, conserves energy on a complete grid, agrees between methods '
   'and is undone by the inverse propagation.',
   ['inputs', 'configurations'], 'all fields, samplings and distances',
   'The unit tests sample a few fields and samplings.',
   ['falco/prop.py', 'falco/proper'],
   [('propagators', 'falco.prop, falco.proper')], PURE)
na('C81', 'Generated masks have the requested geometry',
   'Generated pupil, focal-plane and Lyot masks have values between 0 and 1, the '
   'requested symmetry, size, rotation and shift, and agree between centerings.',
   ['inputs', 'configurations'], 'all mask parameters',
   'The unit tests sample a few parameter sets.',
   ['falco/mask.py'], [('mask generators', 'falco.mask')],
   PURE + 'That they do not depend on history is C25.')
na('C82', 'Thin-film coefficients obey the physics of layers',
   'Transmission and reflection of thin-film stacks obey energy conservation, '
   'reciprocity and the limits of vanishing layers.',
   ['inputs'], 'all materials, thicknesses, angles and wavelengths',
   'The unit tests compare two stacks with stored numbers.',
   ['falco/thinfilm.py'], [('solver', 'falco.thinfilm.solver')],
   PURE + 'That kept tables are those of the request is C22.')
na('C83', 'The DM surface is the superposition of influence functions',
   'The DM surface is linear in the actuator heights, placed where the actuator '
   'geometry says, and fitting a surface and regenerating it gives it back.',
   ['inputs', 'configurations'], 'all DM geometries and commands',
   'The unit tests use a few geometries and single actuators.',
   ['falco/dm.py', 'falco/propcustom/propcustom_dm.py'],
   [('surface generation and fit', 'falco.dm')], PURE)
na('C84', 'The Jacobian is the derivative of the compact model',
   'Each column of the control Jacobian is the derivative of the compact-model field '
   'with respect to the command of that actuator.',
   ['inputs', 'configurations'], 'all models, commands and actuators',
   'The unit tests compare one command per coronagraph.',
   ['falco/model/jacobians.py'], [('Jacobian of each layout', 'falco.model.jacobians')],
   PURE + 'That it is the same however it is computed is C03 and C18.')
na('C85', 'The reverse-mode gradient is the gradient of the AD-EFC cost',
   'The gradient that AD-EFC minimizes with is the gradient of its cost function.',
   ['inputs', 'configurations'], 'all models, commands and regularizations',
   'The unit tests compare one command.',
   ['falco/model/models.py', 'falco/diff_dm.py'],
   [('reverse mode', 'falco.model.models.compact_reverse_gradient')],
   PURE + 'A suspected defect here is described in DESIGN.md.')
na('C86', 'Zernike maps are orthonormal polynomials',
   'Zernike maps are the orthonormal polynomials of the given indices on the beam.',
   ['inputs'], 'all indices and grids', 'The unit tests sample a few.',
   ['falco/zern.py', 'falco/proper/prop_zernikes.py'],
   [('map generation', 'falco.zern.gen_norm_zern_maps')], PURE)
na('C87', 'Simulated noise has the statistics of the detector',
   'Simulated photon and read noise has the mean, variance and independence of the '
   'configured detector.',
   ['inputs', 'configurations'], 'all detector parameters and images',
   'The unit tests look at one standard deviation.',
   ['falco/imaging.py'], [('noise', 'falco.imaging.add_noise_to_subband_image')],
   'A statement about a distribution: a simulator that controls the random stream '
   'replaces the very thing to be tested. That the stream is used reproducibly is C23.')
na('C88', 'Invalid arguments are refused',
   'Arguments of the wrong type, shape or range are refused with the documented error.',
   ['inputs'], 'all arguments of public functions',
   'The unit tests sample a few per function.',
   ['falco/check.py'], [('checks', 'falco.check')], PURE)
