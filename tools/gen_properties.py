"""Writes properties.jsonl (kept as a script so the text is easy to maintain)."""
import json, os
Q = "quantify_scheduler/"
B = Q + "backends/qblox/"
P = []


def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        a["state"] = state
    if observe:
        a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})


p("C01", "Absolute times satisfy every timing constraint of the schedule",
  "After compilation every operation of a schedule starts at the time its timing constraints demand relative to the start, centre or end of the operations it references (the latest of several under as-soon-as-possible, the earliest under as-late-as-possible), at every nesting level of sub-schedules, loops and conditionals. The earliest operation starts at zero, no offset between operations is changed by shifting to zero, and the duration of a schedule is the end of its last operation. A constraint set that has no solution (unknown or circular references) is reported and never silently timed.",
  ["programs"], "all constraint graphs over the bounded set of operations, reference points, relative times, strategies and nestings",
  "The tests fix a few dozen hand-written chains; the guarantee is about every constraint graph, including several constraints per operation, negative offsets and nesting.",
  [Q + "compilation.py", Q + "schedules/schedule.py", Q + "operations/control_flow_library.py"],
  [("absolute timing pass", Q + "compilation.py:_determine_absolute_timing"), ("normalisation", Q + "compilation.py:_normalize_absolute_timing"), ("constraint bookkeeping", Q + "schedules/schedule.py:Schedulable.add_timing_constraint")],
  observe=["schedule.schedulables[*]['abs_time']", "schedule.timing_table"])

p("C02", "Executing the compiled programs plays exactly the scheduled signal",
  "Running the compiled sequencer programs produces on every output, at every nanosecond of every repetition, the sum of the pulses and voltage offsets the schedule places there, within the resolution of the output converters. This holds for every combination of pulse shapes, zero and full-scale amplitudes, voltage offsets, long pulses that are realised piecewise, sub-schedules and (nested) loops; a schedule the hardware cannot realise is refused with an error.",
  ["programs"], "all schedules over the bounded alphabet of pulses, offsets, idles, sub-schedules and loops, all relative times on the nanosecond grid tried, 1-3 repetitions",
  "Tests compare the text of a few compiled programs with stored text; none executes a program, so the timing and amplitude of what is played is never compared with the schedule.",
  [B + "compiler_abc.py", B + "analog.py", B + "qasm_program.py", B + "operation_handling/pulses.py", B + "operation_handling/virtual.py", Q + "backends/qblox_backend.py", B + "operations/pulse_factories.py", B + "helpers.py"],
  [("program generation", B + "compiler_abc.py:SequencerCompiler.generate_qasm_program"), ("parameter updates", B + "compiler_abc.py:SequencerCompiler._insert_update_parameters"), ("waits", B + "qasm_program.py:QASMProgram.auto_wait"), ("long pulses", Q + "backends/qblox_backend.py:compile_long_pulses_to_awg_offsets")],
  observe=["compiled_instructions[cluster][module]['sequencers'][*].sequence"])

p("C03", "All sequencers stay in lockstep, offset only by the latency corrections",
  "All sequencer programs of a compiled schedule take the same total time, and every repetition starts at the same instant on all of them, shifted only by the configured latency correction of each output relative to the smallest one. A repetition lasts exactly the duration of the schedule plus one fixed overhead that is the same for every module type. This holds whichever outputs are idle, loop, acquire or play conditionally.",
  ["programs", "configurations"], "all small multi-output schedules, repetitions and latency-correction tables in the bounded space, including both outcomes of every conditional",
  "Each test looks at one program; lockstep is a relation between the programs of all modules for all schedules.",
  [B + "compiler_abc.py", B + "analog.py", B + "timetag.py", B + "helpers.py", Q + "backends/corrections.py", Q + "backends/qblox_backend.py"],
  [("header and latency wait", B + "compiler_abc.py:SequencerCompiler.generate_qasm_program"), ("latency corrections", Q + "backends/corrections.py:determine_relative_latency_corrections"), ("final wait", B + "compiler_abc.py:SequencerCompiler.generate_qasm_program")])

p("C04", "Every acquisition result ends up under its own channel, index and repetition",
  "For every schedule with binned acquisitions, feeding back what the programs store in each bin and retrieving it yields a dataset in which each acquisition appears exactly once, under its acquisition channel and coordinates (including loop iteration and repetition), in append mode, and as the mean over exactly its own executions in average mode. No execution writes outside the bins allotted to it, and no two different acquisitions share a bin. A schedule whose acquisitions cannot be told apart or do not fit is refused.",
  ["programs"], "all small schedules of acquisitions over channels, indices or coordinates, protocols, bin modes, loops and repetitions",
  "Tests check bin numbers in stored program text and the retrieval code with hand-made data separately; the agreement of the two sides for all schedules is not exercised.",
  [B + "qblox_acq_index_manager.py", Q + "helpers/generate_acq_channels_data.py", B + "compiler_abc.py", B + "operation_handling/acquisitions.py", Q + "instrument_coordinator/components/qblox.py"],
  [("acquisition index assignment", Q + "helpers/generate_acq_channels_data.py:generate_acq_channels_data"), ("bin allocation", B + "qblox_acq_index_manager.py:QbloxAcquisitionIndexManager.allocate_bins"), ("retrieval", Q + "instrument_coordinator/components/qblox.py:_AnalogReadoutComponent.retrieve_acquisition"), ("bin registers", B + "compiler_abc.py:SequencerCompiler._initialize_acquisition_qblox_values_append_not_in_control_flow")])

p("C05", "Oscillator phase and frequency follow the schedule exactly",
  "At every played sample and every acquisition the phase and frequency of the numerically controlled oscillator equal those implied by all phase shifts, phase resets and frequency changes scheduled on that clock so far, on every output using the clock, with phases modulo 360 degrees and the phase restarted at each repetition. Operations on one clock never affect another. Updates the hardware cannot perform at the scheduled time are refused.",
  ["programs"], "all bounded sequences of phase shifts (including negative and beyond 360 degrees), resets, frequency changes, pulses, acquisitions, loops and repetitions on one or two clocks",
  "Tests look for single phase instructions; accumulated phase over histories, loops and repetitions is never computed.",
  [B + "operation_handling/virtual.py", B + "helpers.py", B + "analog.py", Q + "backends/qblox_backend.py", Q + "operations/pulse_library.py"],
  [("phase conversion", B + "helpers.py:get_nco_phase_arguments"), ("frequency conversion", B + "helpers.py:get_nco_set_frequency_arguments"), ("frequency change", B + "operation_handling/virtual.py:NcoSetClockFrequencyStrategy"), ("timing checks", B + "analog.py:AnalogSequencerCompiler._check_nco_operation_timing")])

p("C06", "Conditional operations run exactly when their measurement says so",
  "A conditional block is played if and only if the most recent measurement of the qubit it names, taken before it, had the requested outcome, for every combination of outcomes of every measurement, and the timing of everything outside the block is the same either way. Different qubits never trigger each other's blocks and earlier measurements leave nothing behind. A conditional starting at least 364 ns after its measurement ended behaves this way; one that cannot work (no measurement since the previous conditional, nested, more labels than the hardware has) is refused.",
  ["programs", "histories"], "all bounded sequences of conditional measurements, conditional blocks, pulses and loops over up to three qubits, times every assignment of measurement outcomes",
  "Tests match a few programs textually; nothing executes a program under both outcomes, and combinations of outcomes grow exponentially.",
  [Q + "backends/qblox_backend.py", B + "conditional.py", B + "qasm_program.py", B + "operation_handling/virtual.py", B + "compiler_abc.py", B + "analog.py", Q + "operations/control_flow_library.py"],
  [("conditional pass", Q + "backends/qblox_backend.py:compile_conditional_playback"), ("block emission", B + "qasm_program.py:QASMProgram.conditional"), ("trigger settings", B + "analog.py:AnalogSequencerCompiler")])

p("C07", "Digital outputs and marker pulses switch at the scheduled times",
  "A marker pulse drives exactly its own digital output high from its start to its end and the output is low otherwise, for every sequence of marker pulses, on analog and time-tagging modules, while outputs that are permanently enabled on RF modules are never switched off and switches of other channels are unaffected. Marker pulses that cannot be realised are refused.",
  ["programs", "configurations"], "all bounded sequences of marker pulses and pulses on all digital outputs of every module type",
  "Marker masks are compared for a handful of programs; interaction of several outputs, defaults and module types over time is not executed.",
  [B + "operation_handling/virtual.py", B + "operation_handling/pulses.py", B + "analog.py", B + "timetag.py", B + "compiler_abc.py", B + "instrument_compilers.py"],
  [("marker strategy", B + "operation_handling/pulses.py:MarkerPulseStrategy"), ("digital output strategy", B + "operation_handling/pulses.py:DigitalOutputStrategy"), ("replacement of digital pulses", B + "compiler_abc.py:SequencerCompiler._replace_digital_pulses")])

p("C08", "A compiled program is always executable within the hardware limits",
  "Every program that compiles is well formed: all instructions and immediates are within their ranges, every jump target, register, waveform, weight, acquisition and bin it uses exists and was initialised, no two output or input operations collide, and memory for waveforms, acquisitions and bins is within the limits of the module. Schedules that need more than that are refused with an error rather than compiled into a program that fails or misbehaves.",
  ["programs", "configurations"], "all schedules of the bounded spaces of the other checks plus families growing across each limit (amplitude, register, waveform, bin, index, wait, loop and phase limits)",
  "Limits are tested at one or two points each; programs assembled from several features near the limits are not executed.",
  [B + "register_manager.py", B + "qasm_program.py", B + "qblox_acq_index_manager.py", B + "analog.py", B + "compiler_abc.py", B + "constants.py", B + "helpers.py"],
  [("registers", B + "register_manager.py:RegisterManager"), ("gain conversion", B + "qasm_program.py:QASMProgram.expand_awg_from_normalised_range"), ("waveform memory", B + "analog.py:AnalogSequencerCompiler._validate_awg_dict"), ("bins", B + "qblox_acq_index_manager.py:QbloxAcquisitionIndexManager")])

p("C09", "Overlapping pulses on one output play their sum",
  "Pulses that overlap in time on the same port and clock are played as the sample-wise sum of the individual pulses, for any number, shape, order and degree of overlap, and pulses on other ports or clocks are not touched. Timing of all other operations is unchanged. Overlaps across the border of a sub-schedule or loop, which are not summed, are refused or reported by a warning, and never played truncated silently.",
  ["programs"], "all placements of up to four pulses of the bounded shapes on a time grid on one or two port-clocks, flat or inside sub-schedules and loops",
  "The interval algorithm is tested on a few placements; the sum identity over all orders of starts and ends is not.",
  [B + "stack_pulses.py", Q + "backends/qblox_backend.py"],
  [("interval construction", B + "stack_pulses.py:_construct_pulses_by_interval"), ("square stacking", B + "stack_pulses.py:_stack_square_pulses"), ("sampled stacking", B + "stack_pulses.py:_stack_arbitrary_pulses")])

p("C10", "Crosstalk compensation undoes the declared crosstalk",
  "With a crosstalk matrix configured, the signals played on the coupled outputs, mixed through that matrix, equal at every instant the signals the schedule asked for, for any sequence of pulses including repeated use of the same pulse, simultaneous pulses and sub-schedules. This concerns pulses of every shape; explicit voltage offsets are passed on unchanged. Outputs not mentioned in the matrix play what was scheduled. The schedule handed in is not altered.",
  ["programs", "configurations"], "all bounded sequences of pulses over two or three coupled outputs and one uncoupled output, for a family of crosstalk matrices",
  "Tests use single pulses and check amplitudes; superposition over sequences with repeated pulses is not checked.",
  [B + "crosstalk_compensation.py"],
  [("compensation pass", B + "crosstalk_compensation.py:crosstalk_compensation"), ("matrix", B + "crosstalk_compensation.py:_construct_crosstalk_matrix")])

p("C11", "The automatic RF switch is on around every microwave pulse",
  "With automatic RF switching enabled, the switch of a microwave output is on from the configured buffer before until the buffer after every pulse or stitched pulse on that output, windows closer than twice the buffer are merged, and it is off elsewhere. A loop or conditional with such pulses counts as one pulse as long as the whole loop or conditional. This holds for pulses anywhere in sub-schedules and loops and does not change the signal or the timing of the schedule.",
  ["programs", "configurations"], "all bounded sequences of microwave pulses, offsets, idles, sub-schedules and loops, for several buffer values",
  "Tests check a few fixed sequences; merging and coverage over all sequences and nestings is not.",
  [B + "auto_rf_switch.py", B + "operations/rf_switch_toggle.py"],
  [("dressing pass", B + "auto_rf_switch.py:auto_rf_switch_dressing"), ("window merging", B + "auto_rf_switch.py:_merge_pulses_into_windows")])

p("C12", "Pulse compensation brings the integral on each port to zero",
  "After pulse compensation the time integral of the signal on every compensated port over the compensated block is zero, the compensating pulse never exceeds the allowed amplitude, its duration is the shortest multiple of the duration grid allowed, and it starts only after the last pulse on that port. All other pulses keep their times and amplitudes, for every body including loops and sub-schedules. Bodies that cannot be compensated are refused. A compensation pulse created for a given list of pulses has exactly the opposite area on that port, with the amplitude or duration asked for. A block that names device elements is the block with the settings of these elements written out, and elements whose settings do not fit together are refused.",
  ["programs", "configurations"], "all bounded bodies of pulses, loops and sub-schedules on one to three ports, with several amplitude limits and duration grids",
  "A handful of bodies is tested; the integral identity is quantified over all bodies.",
  [Q + "pulse_compensation.py", Q + "operations/pulse_compensation_library.py", Q + "operations/pulse_library.py", Q + "backends/circuit_to_device.py"],
  [("compensation", Q + "pulse_compensation.py:process_compensation_pulses")])

p("C13", "Merging virtual rotations never changes what the qubits see",
  "Compiling a gate sequence with its Z rotations merged yields the same pulses at the same times with the same phases relative to the rotating frame as compiling it gate by gate, for every sequence of gates on every set of qubits, including repeated operation objects, sub-schedules, loops and conditionals. A Z rotation only affects later pulses on the same qubit. The unitary implemented equals that of the gate sequence up to a global phase.",
  ["programs"], "all bounded gate sequences over one or two qubits, with shared gate objects, nesting and loops",
  "The pass is tested on a few sequences; equivalence is over all of them.",
  [Q + "compilation.py", Q + "backends/circuit_to_device.py", Q + "operations/gate_library.py", Q + "operations/pulse_factories.py", Q + "device_under_test/transmon_element.py"],
  [("merge pass", Q + "compilation.py:_merge_rz_gates"), ("rotation pulse", Q + "operations/pulse_factories.py:rxy_drag_pulse"), ("phase shift", Q + "operations/pulse_factories.py:phase_shift")])

p("C14", "Gates compile to the calibrated pulses of exactly the addressed elements",
  "Every gate or measurement becomes the pulses and acquisitions that the current device parameters prescribe for exactly the elements or edge it names, with per-operation overrides applied to that occurrence only and leaving later operations and the device unchanged. A multi-element gate or measurement is the simultaneous application to each of its elements with its own parameters, symmetric gates accept both orders, and clocks take the device frequencies unless set by the user.",
  ["programs", "configurations"], "all bounded sequences of gates and measurements over two elements and an edge, with parameter values and overrides from small sets",
  "Tests compile a few gates with default parameters; overrides and parameters interact over sequences.",
  [Q + "backends/circuit_to_device.py", Q + "device_under_test/transmon_element.py", Q + "device_under_test/quantum_device.py", Q + "operations/measurement_factories.py", Q + "operations/gate_library.py"],
  [("circuit to device pass", Q + "backends/circuit_to_device.py:compile_circuit_to_device_with_config_validation"), ("device config", Q + "device_under_test/transmon_element.py:BasicTransmonElement.generate_device_config")])

p("C15", "Output frequency equals oscillator plus modulation frequency or is refused",
  "For every port-clock the frequency produced by the configured local oscillator and modulation settings equals the clock frequency of the schedule (after any declared down-conversion), on every sequencer sharing the oscillator, for every combination of given and missing frequencies, mixers and module types. Under- or over-determined or conflicting combinations are refused. Changing a clock during the schedule keeps the equation true.",
  ["configurations", "inputs"], "all combinations of given/missing/conflicting oscillator, modulation and clock frequencies over one or two port-clocks sharing or not sharing an oscillator, per module type",
  "Single combinations are tested per function; consistency across sequencers and instruments for all combinations is not.",
  [B + "helpers.py", B + "analog.py", B + "compiler_container.py", B + "instrument_compilers.py", Q + "backends/qblox_backend.py"],
  [("frequency assignment", B + "helpers.py:determine_clock_lo_interm_freqs"), ("per-module assignment", B + "analog.py:RFModuleCompiler.assign_frequencies"), ("local oscillator", B + "instrument_compilers.py:LocalOscillatorCompiler.assign_frequency")])

p("C16", "Compilation is pure, deterministic and repeatable",
  "Compiling a schedule leaves the schedule, its operations, the device and the configuration as they were, and compiling the same schedule again, with the same or another compiler object, after or between compilations of other schedules, gives the same instructions. A compiled schedule does not change when the objects it was compiled from are changed later, and vice versa.",
  ["histories", "programs"], "all bounded histories of compile operations over a set of schedules that covers every pass and shares operations and bodies, with changes to sources in between",
  "Tests compile each schedule once; purity is about all histories of compilations and later changes.",
  [Q + "backends/graph_compilation.py", Q + "backends/qblox_backend.py", Q + "compilation.py", Q + "backends/circuit_to_device.py", Q + "schedules/schedule.py"],
  [("compiler", Q + "backends/graph_compilation.py:QuantifyCompiler.compile"), ("copy", Q + "schedules/schedule.py:ScheduleBase.__getstate__")])

p("C17", "Serialisation round-trips preserve schedules, operations and devices",
  "Writing any schedule, operation, resource, device or configuration to JSON (text or file) and reading it back gives an equal object that compiles to the same instructions, for every operation class with any arguments and any nesting, and copying or pickling does the same. Reading text that does not describe a known object is refused.",
  ["inputs", "programs"], "every serialisable class with all combinations of boundary arguments, and all bounded nested schedules built from them",
  "Tests round-trip selected instances; the guarantee is for each class, argument combination and nesting.",
  [Q + "json_utils.py", Q + "schedules/schedule.py", Q + "operations/operation.py", Q + "device_under_test/quantum_device.py", Q + "yaml_utils.py", Q + "resources.py"],
  [("encoder/decoder", Q + "json_utils.py:SchedulerJSONDecoder"), ("schedule state", Q + "schedules/schedule.py:ScheduleBase.__setstate__"), ("operation state", Q + "operations/operation.py:Operation.__setstate__")])

p("C18", "Schedules store operations faithfully whatever is added, shared or repeated",
  "A schedule contains exactly the operations added to it, in the order added and with the labels and constraints given, whatever equal, shared or similar operations it already contains; two operations are equal, and share storage, only if they describe the same behaviour. Adding to a schedule changes neither the operation nor any schedule it is not part of, labels stay unique, and references to unknown operations are refused.",
  ["histories"], "all bounded histories of adding operations, sub-schedules, loops and labelled references drawn from pairs differing in one argument",
  "Sharing by content hash makes bugs depend on which other operations are present; tests add few operations.",
  [Q + "schedules/schedule.py", Q + "operations/operation.py", Q + "helpers/collections.py"],
  [("add", Q + "schedules/schedule.py:ScheduleBase.add"), ("content hash", Q + "operations/operation.py:Operation.hash")])

p("C19", "The quantum device always reflects the elements and edges added and removed",
  "After any history of adding, removing and configuring elements and edges, the device lists exactly those present, refuses duplicates and unknown names, generates a device configuration of exactly the present elements with their current parameter values, and can be saved and reloaded to an equal device.",
  ["histories"], "all bounded histories of device operations over two elements, two edges and a few parameters",
  "Tests perform one or two operations; consistency after arbitrary histories is a reachability question.",
  [Q + "device_under_test/quantum_device.py", Q + "device_under_test/edge.py", Q + "device_under_test/device_element.py"],
  [("element registry", Q + "device_under_test/quantum_device.py:QuantumDevice.add_element"), ("restore", Q + "device_under_test/quantum_device.py:QuantumDevice.from_json")])

p("C20", "The instrument coordinator prepares, runs and stops components consistently",
  "For any history of adding and removing components and preparing, starting, waiting, retrieving and stopping, each command reaches exactly the registered components the compiled schedule addresses, in the required order, results are the union of what those components return with conflicts reported, and a component removed or failing leaves the coordinator usable.",
  ["histories", "fault_sequences"], "all bounded command histories over two or three components, with a failure injected at each possible call",
  "Tests run one success path with mocks; all orders of commands and failures are not explored.",
  [Q + "instrument_coordinator/instrument_coordinator.py", Q + "instrument_coordinator/utility.py", Q + "instrument_coordinator/components/base.py"],
  [("coordinator", Q + "instrument_coordinator/instrument_coordinator.py:InstrumentCoordinator"), ("merging results", Q + "instrument_coordinator/utility.py:add_acquisition_coords_nonbinned")])

p("C21", "A schedule gettable returns each result in its place and recompiles when needed",
  "Evaluating a schedule gettable returns, for every acquisition channel and setpoint in order, the value the hardware reported for exactly that acquisition (real and imaginary parts or magnitude and phase as requested), batched or not, and reflects the current settings and repetitions. Missing data is marked as missing and never shifted, and malformed data is refused. The profiling variants of gettable and coordinator give the same results and errors, and log every step they time.",
  ["inputs", "histories"], "all bounded shapes of acquisition datasets (channels, indices, repetitions, missing values) times gettable options and call histories",
  "Tests feed a few datasets; order and placement for all shapes is not covered.",
  [Q + "gettables.py", Q + "gettables_profiled.py"],
  [("evaluation", Q + "gettables.py:ScheduleGettable.get"), ("data processing", Q + "gettables.py:ScheduleGettable.get")])

p("C22", "The Zurich Instruments backend plays and acquires what the schedule says",
  "For every schedule it accepts, the Zurich Instruments backend produces for each channel a program and command table whose execution plays the scheduled waveforms at the scheduled clock ticks in every repetition and acquires in the scheduled order with the right weights, with markers and triggers keeping instruments aligned. Unsupported timing is refused.",
  ["programs"], "all bounded schedules of pulses and acquisitions on the example instruments with sampled timings",
  "Generated sequencer code is only compared textually for few schedules.",
  [Q + "backends/zhinst_backend.py", Q + "backends/zhinst/seqc_il_generator.py", Q + "backends/zhinst/settings.py"],
  [("compilation", Q + "backends/zhinst_backend.py:compile_backend")])

p("C23", "Diagrams and sampled waveforms show the schedule as it will be played",
  "The sampled pulse diagram of a compiled schedule shows on every port, at every sampled time, the sum of the pulses scheduled there, including loops, sub-schedules and voltage offsets, and the generated waveforms of each pulse type equal their defining formula at every sample for every duration and amplitude. The curves drawn by either plotting library, in one plot or one per port, are these samples, and acquisitions and windows are marked at the times they are scheduled. A long square pulse split into parts is the same signal with the fewest parts.",
  ["programs", "inputs"], "all bounded schedules and pulse parameters on a grid",
  "Diagram tests compare images for a few schedules.",
  [Q + "schedules/_visualization/pulse_diagram.py", Q + "waveforms.py", Q + "helpers/waveforms.py", Q + "operations/pulse_library.py"],
  [("sampling", Q + "schedules/_visualization/pulse_diagram.py:get_sampled_pulses_from_voltage_offsets"), ("waveforms", Q + "waveforms.py")])

p("C24", "Distortion corrections filter each pulse as configured and nothing else",
  "A software distortion correction is applied to every pulse on exactly the configured port-clock by the configured filter function and clipping range, keeps the duration of every pulse, and leaves every other output and the schedule timing unchanged; hardware corrections appear on exactly the configured output. Pulses in sub-schedules and loops are treated alike.",
  ["programs", "configurations"], "all bounded sequences of pulses on corrected and uncorrected outputs, for several filters and clipping ranges",
  "Few pulses are tested; nested and repeated pulses are not.",
  [Q + "backends/corrections.py", B + "analog.py"],
  [("software correction", Q + "backends/corrections.py:apply_software_distortion_corrections"), ("filter", Q + "backends/corrections.py:distortion_correct_pulse")])

p("C25", "Time-tagging acquisitions open and close exactly over their window",
  "On time-tagging modules every acquisition opens its window at its start and closes it at its end with the requested fine delays, counts or tags relative to the requested reference, stores into its own bin for every repetition and loop iteration, and configures its input as requested. Requests that conflict between acquisitions or exceed the hardware limits are refused.",
  ["programs", "configurations"], "all bounded sequences of time-tag, count and trace acquisitions and marker pulses with fine delays and loops",
  "Tests compare few programs textually; windows across sequences and loops are not executed.",
  [B + "timetag.py", B + "operation_handling/acquisitions.py", B + "operation_handling/factory_timetag.py"],
  [("time-tag strategy", B + "operation_handling/acquisitions.py:TimetagAcquisitionStrategy"), ("sequencer", B + "timetag.py:TimetagSequencerCompiler")])

p("C26", "Each acquisition integrates exactly the requested window with its weights",
  "Every acquisition is triggered at its scheduled time and integrates exactly the requested duration with exactly the requested weights, rotation and threshold for its port and clock, whatever other acquisitions the schedule contains, and scope traces contain exactly the requested samples. Requests that one sequencer cannot satisfy together (different integration lengths, thresholds, or scope owners) are refused and never silently altered.",
  ["programs", "configurations"], "all bounded combinations of acquisitions with different protocols, durations, weights and thresholds on up to two port-clocks",
  "Settings are checked for single acquisitions; conflicts between several are only sampled.",
  [B + "analog.py", B + "operation_handling/acquisitions.py", B + "operation_handling/factory_analog.py", B + "helpers.py"],
  [("integration length", B + "analog.py:AnalogSequencerCompiler.prepare"), ("weights", B + "operation_handling/acquisitions.py:WeightedAcquisitionStrategy"), ("settings", B + "analog.py:AnalogSequencerCompiler._prepare_threshold_settings")])

p("C27", "Equivalent hardware configurations compile to equivalent programs",
  "The meaning of a hardware configuration does not depend on how it is written: names of instruments, order of entries, which sequencer or slot is used, tuple or list or wildcard notation, model object or dictionary or file, and the old configuration style all lead to the same signals on the same ports. Every port-clock used is driven by exactly the output it is connected to, and settings given for one port-clock reach only that one.",
  ["configurations"], "all bounded permutations and re-spellings of a family of configurations, and all assignments of ports to channels",
  "Tests use two example configurations; independence of spelling is over all configurations.",
  [Q + "backends/qblox_backend.py", B + "compiler_container.py", B + "helpers.py", Q + "backends/types/qblox.py", Q + "device_under_test/hardware_config.py", Q + "structure/types.py"],
  [("port-clock mapping", Q + "backends/qblox_backend.py:QbloxHardwareCompilationConfig._extract_instrument_compilation_configs"), ("sequencer assignment", B + "compiler_abc.py:ClusterModuleCompiler._construct_all_sequencer_compilers")])

p("C28", "Injected assembly runs in place and disturbs nothing around it",
  "A block of inline assembly is executed exactly at its scheduled time with its waveforms and labels intact, uses no register or label in use by the surrounding program, and everything before and after it on the same and other outputs is played as without it, for every surrounding schedule including loops. Blocks that are not valid or do not fit are refused.",
  ["programs"], "all bounded surrounding schedules times a set of assembly blocks using registers, labels, loops and waveforms",
  "Tests inject one block; interference depends on the surrounding program.",
  [B + "operations/inline_q1asm.py", B + "operation_handling/q1asm_injection_strategy.py", B + "qasm_program.py", B + "register_manager.py"],
  [("injection", B + "operation_handling/q1asm_injection_strategy.py:Q1ASMInjectionStrategy"), ("line parsing", B + "qasm_program.py:QASMProgram.parse_program_line")])
p("C29", "The library schedules perform the experiments they document",
  "Each ready-made experiment of the library (Rabi, T1, Ramsey, echo, CPMG, AllXY, readout calibration, heterodyne and two-tone spectroscopy, dark ESR, trace, staircase and Chevron schedules) compiles to exactly the documented sequence of pulses, frames, frequencies and acquisitions, with the documented delays, for every set of setpoints, options and repetitions; the i-th acquisition of a channel belongs to the i-th setpoint. Invalid arguments are refused.",
  ["programs"], "all setpoint sequences up to a bound (scalars, unsorted, repeated values) times the options of every generator",
  "Tests check labels and durations of one argument set per schedule.",
  ["quantify_scheduler/schedules/timedomain_schedules.py", "quantify_scheduler/schedules/spectroscopy_schedules.py", "quantify_scheduler/schedules/trace_schedules.py", "quantify_scheduler/schedules/verification.py", "quantify_scheduler/schedules/two_qubit_transmon_schedules.py"],
  [("echo", "quantify_scheduler/schedules/timedomain_schedules.py:echo_sched"), ("two-tone", "quantify_scheduler/schedules/spectroscopy_schedules.py:two_tone_spec_sched_nco")])

p("C30", "A circuit diagram shows every operation in its rows and its order",
  "The circuit diagram of a schedule has one row per qubit and per port used, in a fixed order, and every operation appears exactly once, with the symbol and label of its kind, on exactly the rows it acts on. Operations stand in the order of execution, simultaneous ones in the same column. Brackets of loops and frames of conditionals span exactly the operations inside them, at any nesting, with the number of repetitions; the arrow of a conditional starts at its measurement. Drawing changes nothing in the schedule.",
  ["programs"], "all bounded schedules of gates, measurements, pulses and acquisitions with sub-schedules, loops and conditionals around them",
  "Tests compare images of ten schedules; placement depends on nesting and order.",
  [Q + "schedules/_visualization/circuit_diagram.py", Q + "schedules/_visualization/pulse_scheme.py"],
  [("drawing", "quantify_scheduler/schedules/_visualization/circuit_diagram.py:circuit_diagram_matplotlib")])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
print(len(P))
