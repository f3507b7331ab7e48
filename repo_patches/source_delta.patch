From ed3272748a494e2ac66f78c736a3a1b0c8b32872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:29 +0000
Subject: [PATCH 01/89] fix: staircase waveform for descending steps and
 samples on step boundaries

---
 quantify_scheduler/waveforms.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/quantify_scheduler/waveforms.py b/quantify_scheduler/waveforms.py
index da5d7ab..97b2165 100644
--- a/quantify_scheduler/waveforms.py
+++ b/quantify_scheduler/waveforms.py
@@ -88,10 +88,12 @@ def staircase(
         duration = float(t[-1] - t[0])
 
     amp_step = (final_amp - start_amp) / (num_steps - 1)
-    waveform = np.floor(t * (num_steps / duration)) * amp_step + start_amp
-    # Replace out of range values with start_amp or final_amp.
+    # The small margin keeps a sample that lies on a step boundary in the step it starts,
+    # independent of floating point rounding.
+    step = np.floor(np.asarray(t) * (num_steps / duration) + 1e-6)
+    # Times out of range get the first or the last step.
     # In most cases that would only happen when `duration in t`
-    return np.minimum(np.maximum(waveform, start_amp), final_amp)
+    return np.clip(step, 0, num_steps - 1) * amp_step + start_amp
 
 
 def soft_square(t: NDArray | list[float], amp: float | complex) -> NDArray:
-- 
2.43.0


From 981e177d090533838a13cc44183f0daf29aa0e05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:29 +0000
Subject: [PATCH 02/89] fix: reset the voltage offset of a long ramp pulse with
 zero amplitude

---
 .../backends/qblox/operations/pulse_factories.py            | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/quantify_scheduler/backends/qblox/operations/pulse_factories.py b/quantify_scheduler/backends/qblox/operations/pulse_factories.py
index 485b1d1..585b6f2 100644
--- a/quantify_scheduler/backends/qblox/operations/pulse_factories.py
+++ b/quantify_scheduler/backends/qblox/operations/pulse_factories.py
@@ -279,6 +279,7 @@ def long_ramp_pulse(
     builder = StitchedPulseBuilder(long_ramp_pulse.__name__, port=port, clock=clock, t0=t0)
 
     last_sample_voltage = offset
+    current_voltage_offset = None
     for _ in range(num_whole_parts):
         # Add an offset for each ramp part, except for the first one if the overall ramp
         # offset is 0.
@@ -288,6 +289,7 @@ def long_ramp_pulse(
                 path_Q=0.0,
                 reference_magnitude=reference_magnitude,
             )
+            current_voltage_offset = last_sample_voltage
         builder.add_pulse(
             pulse_library.RampPulse(
                 amp=amp_part,
@@ -303,9 +305,7 @@ def long_ramp_pulse(
     # 'UpdateParameters' instruction at the end.
 
     # Insert a 0 offset if offsets were inserted above and the last offset is not 0.
-    if not math.isclose(last_sample_voltage, offset) and not math.isclose(
-        last_sample_voltage - amp_part, 0.0
-    ):
+    if current_voltage_offset is not None and not math.isclose(current_voltage_offset, 0.0):
         builder.add_voltage_offset(path_I=0.0, path_Q=0.0)
     builder.add_pulse(
         pulse_library.RampPulse(
-- 
2.43.0


From 3f3ab11a9aee2d885548db096814ff2bd95cf4ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:50 +0000
Subject: [PATCH 03/89] fix: accept control flow over a body without
 port-clocks

---
 quantify_scheduler/backends/qblox/helpers.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/quantify_scheduler/backends/qblox/helpers.py b/quantify_scheduler/backends/qblox/helpers.py
index 60dc625..398bb21 100644
--- a/quantify_scheduler/backends/qblox/helpers.py
+++ b/quantify_scheduler/backends/qblox/helpers.py
@@ -947,6 +947,13 @@ def assign_pulse_and_acq_info_to_devices(
         if isinstance(operation, WindowOperation):
             continue
 
+        if (
+            isinstance(operation, (LoopBegin, ConditionalBegin, _ControlFlowReturn))
+            and not operation["pulse_info"]
+        ):
+            # The body does not use any port-clock (e.g. it only contains idle time).
+            continue
+
         if (
             not operation.valid_pulse
             and not operation.valid_acquisition
-- 
2.43.0


From f8b9cad43a42394e0da478e465c7d692e01da2af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:11 +0000
Subject: [PATCH 04/89] fix: mix trigger count and timetag acquisitions on one
 time-tagging channel

---
 quantify_scheduler/backends/qblox/timetag.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/quantify_scheduler/backends/qblox/timetag.py b/quantify_scheduler/backends/qblox/timetag.py
index 8f3e511..712cf4d 100644
--- a/quantify_scheduler/backends/qblox/timetag.py
+++ b/quantify_scheduler/backends/qblox/timetag.py
@@ -309,16 +309,23 @@ class TimetagSequencerCompiler(SequencerCompiler):
             self._settings.scope_trace_type = TimetagTraceType.TIMETAG
 
         if ("Timetag" in unique_protocols) or ("TimetagTrace" in unique_protocols):
+            timetag_acquisitions = [
+                acq
+                for acq in acquisitions
+                if acq.operation_info.data["protocol"] in ("Timetag", "TimetagTrace")
+            ]
             self._settings.time_source = self._get_unique_value_or_raise(
-                values=(acq.operation_info.data["time_source"] for acq in acquisitions),
+                values=(acq.operation_info.data["time_source"] for acq in timetag_acquisitions),
                 setting_name="time_source",
             )
             self._settings.time_ref = self._get_unique_value_or_raise(
-                values=(acq.operation_info.data["time_ref"] for acq in acquisitions),
+                values=(acq.operation_info.data["time_ref"] for acq in timetag_acquisitions),
                 setting_name="time_ref",
             )
             self._settings.time_ref_channel = self._get_unique_value_or_raise(
-                values=(acq.operation_info.data["time_ref_channel"] for acq in acquisitions),
+                values=(
+                    acq.operation_info.data["time_ref_channel"] for acq in timetag_acquisitions
+                ),
                 setting_name="time_ref_channel",
             )
 
-- 
2.43.0


From 5c36b9c5ba27f45189fb0ed606de25437132b40d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:24 +0000
Subject: [PATCH 05/89] fix: retrieve appended acquisitions of one channel
 spread over several sequencers

---
 quantify_scheduler/instrument_coordinator/utility.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/quantify_scheduler/instrument_coordinator/utility.py b/quantify_scheduler/instrument_coordinator/utility.py
index fb29b13..75f001f 100644
--- a/quantify_scheduler/instrument_coordinator/utility.py
+++ b/quantify_scheduler/instrument_coordinator/utility.py
@@ -157,10 +157,10 @@ def check_already_existing_acquisition(
         def mask_func(x: float, y: float) -> int:
             return 0 if np.isnan(x) or np.isnan(y) else 1
 
-        if len(common_0) and len(common_1):
+        if common_0.size and common_1.size:
             conflict_mask = xarray.apply_ufunc(mask_func, common_0, common_1, vectorize=True)
             for conflict in conflict_mask:
-                if conflict.values != [1]:
+                if not np.any(conflict.values == 1):
                     continue
                 conflicting_coords = [("acq_channel", acq_channel)]
                 conflicting_coords += [(dim, conflict[dim].values) for dim in conflict.coords]
-- 
2.43.0


From 2bbdeb422f7f6aa3816922a96ae112a33f134330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:24 +0000
Subject: [PATCH 06/89] fix: count repetitions when checking the available
 acquisition bins

---
 .../backends/qblox/qblox_acq_index_manager.py               | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/quantify_scheduler/backends/qblox/qblox_acq_index_manager.py b/quantify_scheduler/backends/qblox/qblox_acq_index_manager.py
index 089b65f..5f904ea 100644
--- a/quantify_scheduler/backends/qblox/qblox_acq_index_manager.py
+++ b/quantify_scheduler/backends/qblox/qblox_acq_index_manager.py
@@ -255,7 +255,8 @@ class QbloxAcquisitionIndexManager:
         requested_number_of_indices: int = len(acq_indices)
 
         if (qblox_acq_index is None) or (
-            requested_number_of_indices > self._number_of_free_qblox_bins(qblox_acq_index)
+            requested_number_of_indices * repetitions
+            > self._number_of_free_qblox_bins(qblox_acq_index)
         ):
             raise IndexError(
                 f"Out of Qblox acquisition bins. "
@@ -432,7 +433,8 @@ class QbloxAcquisitionIndexManager:
         requested_number_of_indices: int = len(acq_indices)
 
         if (qblox_acq_index is None) or (
-            requested_number_of_indices > self._number_of_free_qblox_bins(qblox_acq_index)
+            requested_number_of_indices * repetitions
+            > self._number_of_free_qblox_bins(qblox_acq_index)
         ):
             raise IndexError(
                 f"Out of Qblox acquisition bins. "
-- 
2.43.0


From c4bfed852cf416b41737e9b185aa1faa2284d758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:20 +0000
Subject: [PATCH 07/89] fix: round the summed trigger count of a time-tagging
 module instead of truncating the mean

---
 quantify_scheduler/instrument_coordinator/components/qblox.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantify_scheduler/instrument_coordinator/components/qblox.py b/quantify_scheduler/instrument_coordinator/components/qblox.py
index 2170b8a..7746208 100644
--- a/quantify_scheduler/instrument_coordinator/components/qblox.py
+++ b/quantify_scheduler/instrument_coordinator/components/qblox.py
@@ -2002,7 +2002,7 @@ class _AcquisitionManagerBase(ABC):
                 # that QTM modules also return a "avg_cnt" key, that should not be used!
                 counts = bin_data["count"] if "count" in bin_data else bin_data["avg_cnt"]
                 return (
-                    self._repetitions * int(counts[qblox_acq_bin])
+                    round(self._repetitions * counts[qblox_acq_bin])
                     if (
                         sum_multiply_repetitions
                         and self._acq_channels_data[acq_channel].bin_mode == BinMode.SUM
-- 
2.43.0


From 3af52d31baac9de06ac89129550197afa5fb8c7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:22 +0000
Subject: [PATCH 08/89] fix: never emit wait instructions shorter than the
 assembler accepts

---
 .../backends/qblox/q1asm_instructions.py      | 23 ++++++++++
 .../backends/qblox/qasm_program.py            | 43 ++++++++++++++++++-
 2 files changed, 64 insertions(+), 2 deletions(-)

diff --git a/quantify_scheduler/backends/qblox/q1asm_instructions.py b/quantify_scheduler/backends/qblox/q1asm_instructions.py
index 34f1c06..f9ddb6b 100644
--- a/quantify_scheduler/backends/qblox/q1asm_instructions.py
+++ b/quantify_scheduler/backends/qblox/q1asm_instructions.py
@@ -56,3 +56,26 @@ PLAY_PULSE = "play_pulse"
 ACQUIRE_TIMETAGS = "acquire_timetags"
 ACQUIRE_DIGITAL = "acquire_digital"
 UPD_THRES = "upd_thres"
+
+CONTROL_FLOW_INSTRUCTIONS = (
+    ILLEGAL,
+    STOP,
+    JUMP,
+    LOOP,
+    JUMP_GREATER_EQUALS,
+    JUMP_LESS_THAN,
+    FEEDBACK_SET_COND,
+)
+"""Instructions that change which instructions are executed after them."""
+EXTENDABLE_INSTRUCTIONS = (
+    PLAY,
+    ACQUIRE,
+    ACQUIRE_WEIGHED,
+    ACQUIRE_TTL,
+    ACQUIRE_TIMETAGS,
+    WAIT,
+    UPDATE_PARAMETERS,
+    FEEDBACK_TRIGGERS_RST,
+    UPD_THRES,
+)
+"""Real-time instructions of which the last argument is a duration that can be longer."""
diff --git a/quantify_scheduler/backends/qblox/qasm_program.py b/quantify_scheduler/backends/qblox/qasm_program.py
index e376746..9d7f495 100644
--- a/quantify_scheduler/backends/qblox/qasm_program.py
+++ b/quantify_scheduler/backends/qblox/qasm_program.py
@@ -233,6 +233,12 @@ class QASMProgram:
         if wait_time > constants.IMMEDIATE_MAX_WAIT_TIME:
             repetitions = wait_time // constants.IMMEDIATE_MAX_WAIT_TIME
 
+            time_left = wait_time % constants.IMMEDIATE_MAX_WAIT_TIME
+            if 0 < time_left < constants.MIN_TIME_BETWEEN_OPERATIONS:
+                # Too short for a wait instruction of its own.
+                repetitions -= 1
+                time_left += constants.IMMEDIATE_MAX_WAIT_TIME
+
             # number of instructions where it becomes worthwhile to use a loop.
             instr_number_using_loop = 4
             if repetitions > instr_number_using_loop:
@@ -256,11 +262,14 @@ class QASMProgram:
                     if count_as_elapsed_time:
                         self.elapsed_time += constants.IMMEDIATE_MAX_WAIT_TIME
                     self.conditional_manager.num_real_time_instructions += 1
-            time_left = wait_time % constants.IMMEDIATE_MAX_WAIT_TIME
         else:
             time_left = int(wait_time)
 
-        if time_left > 0:
+        if 0 < time_left < constants.MIN_TIME_BETWEEN_OPERATIONS:
+            self._extend_last_instruction(time_left)
+            if count_as_elapsed_time:
+                self.elapsed_time += time_left
+        elif time_left > 0:
             self.emit(
                 q1asm_instructions.WAIT,
                 time_left,
@@ -270,6 +279,36 @@ class QASMProgram:
                 self.elapsed_time += time_left
             self.conditional_manager.num_real_time_instructions += 1
 
+    def _extend_last_instruction(self, wait_time: int) -> None:
+        """
+        Prolongs the last real-time instruction by a time too short for a wait instruction.
+
+        Parameters
+        ----------
+        wait_time
+            Time to wait in ns.
+
+        Raises
+        ------
+        ValueError
+            If there is no such instruction since the last change of control flow.
+
+        """
+        for instruction in reversed(self.instructions):
+            label, name, arguments, _ = instruction
+            other_arguments, separator, duration = arguments.rpartition(",")
+            if name in q1asm_instructions.EXTENDABLE_INSTRUCTIONS and duration.isdigit():
+                instruction[2] = f"{other_arguments}{separator}{int(duration) + wait_time}"
+                return
+            if label or name in q1asm_instructions.CONTROL_FLOW_INSTRUCTIONS:
+                break
+        raise ValueError(
+            f"Invalid timing. Attempting to wait for {wait_time} ns at "
+            f"t={self.elapsed_time} ns. Please note that a wait time of at least"
+            f" {constants.MIN_TIME_BETWEEN_OPERATIONS} ns is required at the start "
+            f"and after the end of a control flow operation."
+        )
+
     def wait_till_start_operation(self, operation: OpInfo) -> None:
         """
         Waits until the start of a pulse or acquisition.
-- 
2.43.0


From 3331d322c2e2eddc601bb0298a0dd6b551dd8541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:22 +0000
Subject: [PATCH 09/89] fix: refuse more waveforms than a sequencer can address

---
 quantify_scheduler/backends/qblox/compiler_abc.py | 7 +++++++
 quantify_scheduler/backends/qblox/constants.py    | 2 ++
 2 files changed, 9 insertions(+)

diff --git a/quantify_scheduler/backends/qblox/compiler_abc.py b/quantify_scheduler/backends/qblox/compiler_abc.py
index 9c89e20..c7efa43 100644
--- a/quantify_scheduler/backends/qblox/compiler_abc.py
+++ b/quantify_scheduler/backends/qblox/compiler_abc.py
@@ -457,6 +457,13 @@ class SequencerCompiler(ABC):
                 raise RuntimeError(f"Duplicate index {waveform['index']} in waveform dictionary.")
             used_indices.add(waveform["index"])
 
+        if max(used_indices, default=-1) >= constants.MAX_NUMBER_OF_WAVEFORMS:
+            raise RuntimeError(
+                f"The number of different waveforms for port-clock {self.port}-"
+                f"{self.clock} exceeds the limit of {constants.MAX_NUMBER_OF_WAVEFORMS}. "
+                f"The compiled schedule cannot be uploaded to the sequencer.",
+            )
+
         if total_size > constants.MAX_SAMPLE_SIZE_WAVEFORMS:
             raise RuntimeError(
                 f"Total waveform size specified for port-clock {self.port}-"
diff --git a/quantify_scheduler/backends/qblox/constants.py b/quantify_scheduler/backends/qblox/constants.py
index 50a6aed..0354c3a 100644
--- a/quantify_scheduler/backends/qblox/constants.py
+++ b/quantify_scheduler/backends/qblox/constants.py
@@ -81,6 +81,8 @@ MAX_SAMPLE_SIZE_SCOPE_ACQUISITIONS: int = 16384
 """Maximal amount of scope trace acquisition datapoints returned."""
 MAX_SAMPLE_SIZE_WAVEFORMS: int = 16384
 """Maximal amount of samples in the waveforms to be uploaded to a sequencer."""
+MAX_NUMBER_OF_WAVEFORMS: int = 1024
+"""Maximal number of waveforms that can be addressed by a sequencer."""
 MIN_PHASE_ROTATION_ACQ = 0
 """Minimum value of the sequencer integration result phase rotation in degrees."""
 MAX_PHASE_ROTATION_ACQ = 360
-- 
2.43.0


From 3868a2c2e10c6026b73dc7121d74b48e3e501772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:22 +0000
Subject: [PATCH 10/89] fix: refuse integration lengths outside the range of
 the hardware

---
 quantify_scheduler/backends/qblox/analog.py    | 11 +++++++++++
 quantify_scheduler/backends/qblox/constants.py |  4 ++++
 2 files changed, 15 insertions(+)

diff --git a/quantify_scheduler/backends/qblox/analog.py b/quantify_scheduler/backends/qblox/analog.py
index 64ccb86..a23a610 100644
--- a/quantify_scheduler/backends/qblox/analog.py
+++ b/quantify_scheduler/backends/qblox/analog.py
@@ -403,6 +403,17 @@ class AnalogSequencerCompiler(SequencerCompiler):
                     f"of {constants.GRID_TIME} ns.\n\nException caused by "
                     f"{op_strat!r}."
                 )
+            if not (
+                constants.MIN_INTEGRATION_LENGTH_ACQ
+                <= acq_duration_ns
+                <= constants.MAX_INTEGRATION_LENGTH_ACQ
+            ):
+                raise ValueError(
+                    f"Attempting to set an integration_length of {acq_duration_ns} ns, while the "
+                    f"hardware requires it to be between {constants.MIN_INTEGRATION_LENGTH_ACQ} "
+                    f"and {constants.MAX_INTEGRATION_LENGTH_ACQ} ns.\n\nException caused by "
+                    f"{op_strat!r}."
+                )
             if integration_length is None:
                 integration_length = acq_duration_ns
             elif integration_length != acq_duration_ns:
diff --git a/quantify_scheduler/backends/qblox/constants.py b/quantify_scheduler/backends/qblox/constants.py
index 0354c3a..b5b158e 100644
--- a/quantify_scheduler/backends/qblox/constants.py
+++ b/quantify_scheduler/backends/qblox/constants.py
@@ -83,6 +83,10 @@ MAX_SAMPLE_SIZE_WAVEFORMS: int = 16384
 """Maximal amount of samples in the waveforms to be uploaded to a sequencer."""
 MAX_NUMBER_OF_WAVEFORMS: int = 1024
 """Maximal number of waveforms that can be addressed by a sequencer."""
+MIN_INTEGRATION_LENGTH_ACQ: int = 4
+"""Minimum value of the sequencer integration length in ns."""
+MAX_INTEGRATION_LENGTH_ACQ: int = 16777212
+"""Maximum value of the sequencer integration length in ns."""
 MIN_PHASE_ROTATION_ACQ = 0
 """Minimum value of the sequencer integration result phase rotation in degrees."""
 MAX_PHASE_ROTATION_ACQ = 360
-- 
2.43.0


From 464ca129e5d98f0f19e32083d7c62a4e7cbe7d2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:22 +0000
Subject: [PATCH 11/89] fix: refuse thresholds that leave the hardware range
 once scaled by the integration length

---
 quantify_scheduler/backends/qblox/analog.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/quantify_scheduler/backends/qblox/analog.py b/quantify_scheduler/backends/qblox/analog.py
index a23a610..76164ac 100644
--- a/quantify_scheduler/backends/qblox/analog.py
+++ b/quantify_scheduler/backends/qblox/analog.py
@@ -381,6 +381,13 @@ class AnalogSequencerCompiler(SequencerCompiler):
             portclock=self.portclock,
         )
         integration_length = acquisition_infos[0].data.get("duration", 0.0) * 1e9
+        _verify_param_range(
+            param_name="acq_threshold times the integration length",
+            val=acq_threshold * integration_length,
+            min_value=constants.MIN_DISCRETIZATION_THRESHOLD_ACQ,
+            max_value=constants.MAX_DISCRETIZATION_THRESHOLD_ACQ,
+            portclock=self.portclock,
+        )
         self._settings.thresholded_acq_threshold = acq_threshold * integration_length
 
     def _get_integration_length_from_acquisitions(self) -> int | None:
-- 
2.43.0


From dcd1ff710e7341e7ad2e1de592827b093965f826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:22 +0000
Subject: [PATCH 12/89] fix: refuse loops with a number of repetitions the
 sequencer cannot count

---
 quantify_scheduler/backends/qblox/qasm_program.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/quantify_scheduler/backends/qblox/qasm_program.py b/quantify_scheduler/backends/qblox/qasm_program.py
index 9d7f495..e437298 100644
--- a/quantify_scheduler/backends/qblox/qasm_program.py
+++ b/quantify_scheduler/backends/qblox/qasm_program.py
@@ -594,6 +594,11 @@ class QASMProgram:
             qasm.instructions
 
         """
+        if not 1 <= repetitions <= constants.REGISTER_SIZE:
+            raise ValueError(
+                f"Invalid number of repetitions {repetitions} for loop with label {label}. "
+                f"It must be between 1 and {constants.REGISTER_SIZE}."
+            )
         register = self.register_manager.allocate_register()
         comment = f"iterator for loop with label {label}"
 
-- 
2.43.0


From 492b0fdea937cc45e3adc73ffbdf07fc3a5dc424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:46 +0000
Subject: [PATCH 13/89] fix: refuse pulses with samples that are not finite
 numbers instead of skipping them

---
 .../backends/qblox/operation_handling/pulses.py            | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/quantify_scheduler/backends/qblox/operation_handling/pulses.py b/quantify_scheduler/backends/qblox/operation_handling/pulses.py
index c889e05..1eae455 100644
--- a/quantify_scheduler/backends/qblox/operation_handling/pulses.py
+++ b/quantify_scheduler/backends/qblox/operation_handling/pulses.py
@@ -150,12 +150,19 @@ class GenericPulseStrategy(PulseStrategyPartial):
         ValueError
             Data is complex (has an imaginary component), but the channel_name is not
             set as complex (e.g. ``complex_output_0``).
+        ValueError
+            Data contains values that are not finite.
 
         """  # noqa: D301
         op_info = self.operation_info
         waveform_data = helpers.generate_waveform_data(
             op_info.data, sampling_rate=constants.SAMPLING_RATE
         )
+        if not np.all(np.isfinite(waveform_data)):
+            raise ValueError(
+                f"The waveform contains values that are not finite numbers.\n\n"
+                f"Exception caused by {op_info!r}."
+            )
         waveform_data, amp_real, amp_imag = normalize_waveform_data(waveform_data)
         self._waveform_len = len(waveform_data)
 
-- 
2.43.0


From 6cc60dd03c6adde22c5381f3aaa66914b142f47d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:46 +0000
Subject: [PATCH 14/89] fix: refuse acquisition weights below -1

---
 .../backends/qblox/operation_handling/acquisitions.py         | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/quantify_scheduler/backends/qblox/operation_handling/acquisitions.py b/quantify_scheduler/backends/qblox/operation_handling/acquisitions.py
index de745bc..28160f9 100644
--- a/quantify_scheduler/backends/qblox/operation_handling/acquisitions.py
+++ b/quantify_scheduler/backends/qblox/operation_handling/acquisitions.py
@@ -239,9 +239,9 @@ class WeightedAcquisitionStrategy(AcquisitionStrategyPartial):
                 sampling_rate=constants.SAMPLING_RATE,
                 duration=duration,
             )
-            if abs(max(waveform_data)) > 1:
+            if np.max(np.abs(waveform_data)) > 1:
                 first_bad_idx, bad_value = next(
-                    (i, x) for i, x in enumerate(waveform_data) if x > 1
+                    (i, x) for i, x in enumerate(waveform_data) if abs(x) > 1
                 )
                 total = sum(np.abs(waveform_data) > 1)
                 raise ValueError(
-- 
2.43.0


From ecff4e3f26b5e281c24cd137c94a047b096c8433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:46 +0000
Subject: [PATCH 15/89] fix: tolerate rounding in the sampling rate of
 acquisition weights

---
 .../backends/qblox/operation_handling/acquisitions.py         | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/quantify_scheduler/backends/qblox/operation_handling/acquisitions.py b/quantify_scheduler/backends/qblox/operation_handling/acquisitions.py
index 28160f9..51496d1 100644
--- a/quantify_scheduler/backends/qblox/operation_handling/acquisitions.py
+++ b/quantify_scheduler/backends/qblox/operation_handling/acquisitions.py
@@ -226,7 +226,9 @@ class WeightedAcquisitionStrategy(AcquisitionStrategyPartial):
                 )
             if "interpolated" in parameterized_waveform["wf_func"]:
                 weights_sampling_rate = len(parameterized_waveform["t_samples"]) / duration
-                if weights_sampling_rate > constants.SAMPLING_RATE:
+                if weights_sampling_rate > constants.SAMPLING_RATE and not np.isclose(
+                    weights_sampling_rate, constants.SAMPLING_RATE, rtol=1e-9
+                ):
                     raise ValueError(
                         f"Qblox hardware supports a sampling rate up to "
                         f"{constants.SAMPLING_RATE * 1e-9:0.1e} GHz, but a sampling "
-- 
2.43.0


From b810045ee189f47694a721af258baf56b09d93c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:42 +0000
Subject: [PATCH 16/89] fix: refuse acquisition weights that are not numbers

---
 .../backends/qblox/operation_handling/acquisitions.py       | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/quantify_scheduler/backends/qblox/operation_handling/acquisitions.py b/quantify_scheduler/backends/qblox/operation_handling/acquisitions.py
index 51496d1..e084bdf 100644
--- a/quantify_scheduler/backends/qblox/operation_handling/acquisitions.py
+++ b/quantify_scheduler/backends/qblox/operation_handling/acquisitions.py
@@ -241,11 +241,11 @@ class WeightedAcquisitionStrategy(AcquisitionStrategyPartial):
                 sampling_rate=constants.SAMPLING_RATE,
                 duration=duration,
             )
-            if np.max(np.abs(waveform_data)) > 1:
+            if not np.max(np.abs(waveform_data)) <= 1:
                 first_bad_idx, bad_value = next(
-                    (i, x) for i, x in enumerate(waveform_data) if abs(x) > 1
+                    (i, x) for i, x in enumerate(waveform_data) if not abs(x) <= 1
                 )
-                total = sum(np.abs(waveform_data) > 1)
+                total = sum(~(np.abs(waveform_data) <= 1))
                 raise ValueError(
                     f"Acquisition weights with an amplitude greater than 1 are not "
                     f"supported by hardware. Acquisition weights array {idx} contains "
-- 
2.43.0


From 635f15569ff6cc5b7a384a9488a5a0265aa8e2d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:42 +0000
Subject: [PATCH 17/89] fix: set the oscillator frequency of each output from
 its own intermodulation frequency when outputs share a clock

---
 quantify_scheduler/backends/qblox/analog.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/quantify_scheduler/backends/qblox/analog.py b/quantify_scheduler/backends/qblox/analog.py
index 76164ac..643f1bc 100644
--- a/quantify_scheduler/backends/qblox/analog.py
+++ b/quantify_scheduler/backends/qblox/analog.py
@@ -446,10 +446,13 @@ class AnalogSequencerCompiler(SequencerCompiler):
     def _update_set_clock_frequency_operations(self) -> None:
         for op_strat in self.op_strategies:
             if op_strat.operation_info.name == SetClockFrequency.__name__:
-                op_strat.operation_info.data.update(
-                    {
-                        "interm_freq_old": self.frequency,
-                    }
+                # The operation info may be shared with other sequencers on the same clock,
+                # which can have a different intermodulation frequency.
+                op_info = op_strat.operation_info
+                op_strat._op_info = OpInfo(
+                    name=op_info.name,
+                    data={**op_info.data, "interm_freq_old": self.frequency},
+                    timing=op_info.timing,
                 )
 
     @staticmethod
-- 
2.43.0


From 1edd918d54693e2d6478a3f1e519fbacd61e811d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:27 +0000
Subject: [PATCH 18/89] fix: accept a sub-schedule with a conditional
 acquisition that is used more than once

---
 quantify_scheduler/backends/qblox_backend.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/quantify_scheduler/backends/qblox_backend.py b/quantify_scheduler/backends/qblox_backend.py
index 5e2415f..9c299e6 100644
--- a/quantify_scheduler/backends/qblox_backend.py
+++ b/quantify_scheduler/backends/qblox_backend.py
@@ -499,8 +499,15 @@ def _insert_latch_reset(
     abs_time_relative_to_schedule: float,
     schedule: Schedule,
     conditional_info_map: defaultdict[str, ConditionalInfo],
+    visited: set[int] | None = None,
 ) -> None:
+    if visited is None:
+        visited = set()
     if isinstance(operation, ScheduleBase):
+        # The same (sub)schedule may be used multiple times.
+        if id(operation) in visited:
+            return
+        visited.add(id(operation))
         schedulables = list(operation.schedulables.values())
         for schedulable in schedulables:
             abs_time = schedulable.data["abs_time"]
@@ -510,6 +517,7 @@ def _insert_latch_reset(
                 abs_time_relative_to_schedule=abs_time,
                 schedule=operation,
                 conditional_info_map=conditional_info_map,
+                visited=visited,
             )
     elif isinstance(operation, LoopOperation):
         _insert_latch_reset(
@@ -517,6 +525,7 @@ def _insert_latch_reset(
             abs_time_relative_to_schedule=abs_time_relative_to_schedule,
             schedule=schedule,
             conditional_info_map=conditional_info_map,
+            visited=visited,
         )
     elif operation.valid_acquisition and operation.is_conditional_acquisition:
         acq_info = operation["acquisition_info"]
-- 
2.43.0


From d353c612293bb8cf5d7b903a533ba6bef9fb6886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:11 +0000
Subject: [PATCH 19/89] fix: keep the timing of skipped conditional operations
 that contain loops or long waits

---
 .../backends/qblox/qasm_program.py            | 30 +++++++++++++++----
 1 file changed, 25 insertions(+), 5 deletions(-)

diff --git a/quantify_scheduler/backends/qblox/qasm_program.py b/quantify_scheduler/backends/qblox/qasm_program.py
index e437298..18d8ff2 100644
--- a/quantify_scheduler/backends/qblox/qasm_program.py
+++ b/quantify_scheduler/backends/qblox/qasm_program.py
@@ -506,6 +506,7 @@ class QASMProgram:
             )
         self._lock_conditional = True
 
+        start_index = len(self.instructions)
         # This instruction will be replaced when the context manager exits the
         # conditional block.
         self.emit(
@@ -533,12 +534,21 @@ class QASMProgram:
             comment="else wait",
         )
         # autowait now adds an additional duration to elapsed time that we need to compensate.
-        duration = (
-            self.conditional_manager.duration
-            - constants.MIN_TIME_BETWEEN_OPERATIONS
-            * self.conditional_manager.num_real_time_instructions
-            + constants.MIN_TIME_BETWEEN_OPERATIONS
+        total_duration = (
+            self.conditional_manager.duration + constants.MIN_TIME_BETWEEN_OPERATIONS
         )
+        num_instructions = self.conditional_manager.num_real_time_instructions
+        else_duration = constants.MIN_TIME_BETWEEN_OPERATIONS
+        max_duration = (
+            constants.IMMEDIATE_MAX_WAIT_TIME + constants.MIN_TIME_BETWEEN_OPERATIONS - 1
+        )
+        if total_duration - else_duration * num_instructions > max_duration:
+            # The else wait must be a single instruction, because every instruction takes additional
+            # time if there is a trigger. The skipped instructions are prolonged instead.
+            else_duration = -(-(total_duration - max_duration) // num_instructions)
+            arguments = self.instructions[start_index][2].rpartition(",")[0]
+            self.instructions[start_index][2] = f"{arguments},{else_duration}"
+        duration = total_duration - else_duration * num_instructions
         self.auto_wait(duration, count_as_elapsed_time=False)
         self.emit(
             q1asm_instructions.FEEDBACK_SET_COND,
@@ -603,6 +613,7 @@ class QASMProgram:
         comment = f"iterator for loop with label {label}"
 
         self._elapsed_times_in_loops.append(0)
+        num_instructions_before_loop = self.conditional_manager.num_real_time_instructions
 
         self.emit(q1asm_instructions.MOVE, repetitions, register, comment=comment)
         self.emit(q1asm_instructions.NEW_LINE, label=label)
@@ -616,6 +627,15 @@ class QASMProgram:
 
         self._elapsed_times_in_loops[-1] += last_elapsed_time * repetitions
 
+        if self._lock_conditional:
+            # Every iteration executes the real time instructions in the loop again.
+            num_instructions_in_loop = (
+                self.conditional_manager.num_real_time_instructions - num_instructions_before_loop
+            )
+            self.conditional_manager.num_real_time_instructions += num_instructions_in_loop * (
+                repetitions - 1
+            )
+
     @contextmanager
     def temp_registers(self, amount: int = 1) -> Iterator[list[str]]:
         """
-- 
2.43.0


From 72e5ae4f8960180bcb288257b3ed395a4effc015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:11 +0000
Subject: [PATCH 20/89] fix: let a conditional operation use the condition of
 its acquisition if it was added to the schedule first

---
 quantify_scheduler/backends/qblox_backend.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/quantify_scheduler/backends/qblox_backend.py b/quantify_scheduler/backends/qblox_backend.py
index 9c299e6..0d938b1 100644
--- a/quantify_scheduler/backends/qblox_backend.py
+++ b/quantify_scheduler/backends/qblox_backend.py
@@ -621,6 +621,9 @@ def compile_conditional_playback(  # noqa: D417
         lambda: ConditionalInfo(portclocks=set(), address=address_counter.__next__())
     )
     _set_conditional_info_map(schedule, conditional_info_map, config)
+    # A conditional operation can be stored in the schedule before its acquisition. Once all
+    # acquisitions are known, all conditional operations get the information they need.
+    _set_conditional_info_map(schedule, conditional_info_map, config)
     _insert_latch_reset(schedule, 0, schedule, conditional_info_map)
     address_map_addresses = [a.address for a in conditional_info_map.values()]
     if max(address_map_addresses, default=0) > constants.MAX_FEEDBACK_TRIGGER_ADDRESS:
-- 
2.43.0


From 497d99623d61d2d8b3ebe64a28a269d333785c03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:58 +0000
Subject: [PATCH 21/89] fix: send triggers for conditional weighted thresholded
 acquisitions

---
 quantify_scheduler/backends/qblox_backend.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/quantify_scheduler/backends/qblox_backend.py b/quantify_scheduler/backends/qblox_backend.py
index 0d938b1..07a55c4 100644
--- a/quantify_scheduler/backends/qblox_backend.py
+++ b/quantify_scheduler/backends/qblox_backend.py
@@ -484,6 +484,7 @@ def _set_conditional_info_map(
         for info in acq_info:
             if info["protocol"] in (
                 ThresholdedAcquisition.__name__,
+                WeightedThresholdedAcquisition.__name__,
                 ThresholdedTriggerCount.__name__,
                 DualThresholdedTriggerCount.__name__,
             ):
@@ -532,6 +533,7 @@ def _insert_latch_reset(
         for info in acq_info:
             if info["protocol"] in (
                 ThresholdedAcquisition.__name__,
+                WeightedThresholdedAcquisition.__name__,
                 ThresholdedTriggerCount.__name__,
             ):
                 if (feedback_trigger_label := info.get("feedback_trigger_label")) is not None:
-- 
2.43.0


From de55f89370a7319abbdc0736756bd20e6c0adc8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:34 +0000
Subject: [PATCH 22/89] fix: refuse to share a feedback label between
 thresholded and counting acquisitions with different settings

---
 quantify_scheduler/backends/qblox_backend.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/quantify_scheduler/backends/qblox_backend.py b/quantify_scheduler/backends/qblox_backend.py
index 07a55c4..6628613 100644
--- a/quantify_scheduler/backends/qblox_backend.py
+++ b/quantify_scheduler/backends/qblox_backend.py
@@ -389,6 +389,9 @@ def _update_conditional_info_from_acquisition(
     ]:
         label = acq_info["feedback_trigger_label"]
         acq_info["feedback_trigger_address"] = cond_info[label].address
+        # At most one trigger is sent per acquisition.
+        cond_info[label].trigger_invert = False
+        cond_info[label].trigger_count = 1
     elif acq_info["protocol"] == ThresholdedTriggerCount.__name__:
         try:
             TriggerCondition(acq_info["thresholded_trigger_count"]["condition"])
-- 
2.43.0


From 769619aa3cc1d1da602e7462eae6da9c1e501e5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:34 +0000
Subject: [PATCH 23/89] fix: sum overlapping pulses in control-flow bodies, and
 give sums the exact duration of their interval

---
 .../backends/qblox/stack_pulses.py            | 20 +++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/quantify_scheduler/backends/qblox/stack_pulses.py b/quantify_scheduler/backends/qblox/stack_pulses.py
index 214740d..7dc4f4b 100644
--- a/quantify_scheduler/backends/qblox/stack_pulses.py
+++ b/quantify_scheduler/backends/qblox/stack_pulses.py
@@ -17,6 +17,7 @@ from quantify_scheduler.backends.qblox.helpers import is_square_pulse, to_grid_t
 from quantify_scheduler.backends.qblox.operations.pulse_library import (
     SimpleNumericalPulse,
 )
+from quantify_scheduler.operations.control_flow_library import ControlFlowOperation
 from quantify_scheduler.schedules import Schedulable, Schedule
 
 if TYPE_CHECKING:
@@ -84,6 +85,10 @@ def _construct_pulses_by_port_clock(
         if isinstance(op, Schedule):
             schedule.operations[schedulable["operation_id"]] = stack_pulses(op, {})
             continue
+        elif isinstance(op, ControlFlowOperation):
+            if isinstance(op.body, Schedule):
+                op.body = stack_pulses(op.body, {})
+            continue
         elif not op.valid_pulse or not op.data.get("pulse_info"):
             continue
 
@@ -210,15 +215,11 @@ def _stack_arbitrary_pulses(
                 (interval.start_time - schedulable["abs_time"] - pulse_info["t0"])
                 * constants.SAMPLING_RATE
             )
-            end_idx = start_idx + num_samples
-
-            if end_idx == len(waveform) - 1:
-                # Including the last sample makes waveform slice longer than combined_waveform;
-                # append zero to combined_waveform to match lengths and prevent shape mismatch.
-                end_idx += 1
-                combined_waveform = np.append(combined_waveform, 0)
+            # The generated waveform does not always have exactly one sample per ns.
+            samples = waveform[start_idx : start_idx + num_samples]
+            samples = np.append(samples, np.zeros(num_samples - len(samples)))
 
-            combined_waveform = np.add(combined_waveform, waveform[start_idx:end_idx])
+            combined_waveform = np.add(combined_waveform, samples)
             if port is None and clock is None:
                 port, clock = pulse_info.get("port"), pulse_info.get("clock")
 
@@ -257,6 +258,9 @@ def _stack_square_pulses(
                 )
             else:
                 combined_pulse.data["pulse_info"][0]["amp"] += pulse_info["amp"]
+    if combined_pulse is not None:
+        # The duration of the operation must be that of the interval too.
+        combined_pulse._update()
     _create_schedulable(schedule, interval.start_time, combined_pulse)
 
 
-- 
2.43.0


From a5e77c6e12b39627171f523fcc4f3585d77c2326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:34 +0000
Subject: [PATCH 24/89] fix: sum overlapping pulses in the order of the
 schedule instead of an arbitrary one

---
 quantify_scheduler/backends/qblox/stack_pulses.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/quantify_scheduler/backends/qblox/stack_pulses.py b/quantify_scheduler/backends/qblox/stack_pulses.py
index 7dc4f4b..0bb94cf 100644
--- a/quantify_scheduler/backends/qblox/stack_pulses.py
+++ b/quantify_scheduler/backends/qblox/stack_pulses.py
@@ -194,6 +194,11 @@ def _stack_pulses_by_interval(
     return schedule
 
 
+def _in_schedule_order(pulse_keys: set[str], schedule: Schedule) -> list[str]:
+    """Order the keys as they appear in the schedule, so that compiling is deterministic."""
+    return [key for key in schedule.schedulables if key in pulse_keys]
+
+
 def _stack_arbitrary_pulses(
     interval: PulseInterval,
     schedule: Schedule,
@@ -203,7 +208,7 @@ def _stack_arbitrary_pulses(
     combined_waveform = np.zeros(num_samples)
     port, clock, pulse_info = None, None, None
 
-    for key in interval.pulse_keys:
+    for key in _in_schedule_order(interval.pulse_keys, schedule):
         pulse = schedule.operations[schedule.schedulables[key]["operation_id"]]
         for pulse_info in pulse.data["pulse_info"]:
             schedulable = schedule.schedulables[key]
@@ -244,7 +249,7 @@ def _stack_square_pulses(
 ) -> None:
     combined_pulse = None
 
-    for key in interval.pulse_keys:
+    for key in _in_schedule_order(interval.pulse_keys, schedule):
         pulse = schedule.operations[schedule.schedulables[key]["operation_id"]]
         old_schedulable_keys.add(key)
         for pulse_info in pulse.data["pulse_info"]:
-- 
2.43.0


From 8b4694dde9adca0c799fd80b1406a314030035ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:13 +0000
Subject: [PATCH 25/89] fix: refuse operations that are played during a loop or
 conditional they are not part of

---
 quantify_scheduler/backends/qblox/helpers.py | 82 ++++++++++++++++++++
 1 file changed, 82 insertions(+)

diff --git a/quantify_scheduler/backends/qblox/helpers.py b/quantify_scheduler/backends/qblox/helpers.py
index 398bb21..d191e10 100644
--- a/quantify_scheduler/backends/qblox/helpers.py
+++ b/quantify_scheduler/backends/qblox/helpers.py
@@ -772,6 +772,87 @@ def _get_list_of_operations_for_op_info_creation(
         )
 
 
+def _validate_control_flow_nesting(operations: list[tuple[float, Operation]]) -> None:
+    """
+    Asserts that no operation is played during a control flow operation it is not part of.
+
+    Every sequencer executes one instruction after the other. Therefore, an operation on the same
+    port and clock as a control flow operation would become a part of its body, and e.g. be
+    repeated, if it is scheduled at the same time.
+
+    Parameters
+    ----------
+    operations
+        The times and the operations, in which the operations of every control flow operation
+        are enclosed by its begin and end.
+
+    Raises
+    ------
+    RuntimeError
+        If an operation is played during a control flow operation it is not part of.
+
+    """
+    control_flows: list[tuple[int, ...]] = []
+    port_clocks_of_control_flow: dict[int, set[tuple[str, str]]] = {}
+    played_once: set[int] = set()
+    active: tuple[int, ...] = ()
+    for index, (_, operation) in enumerate(operations):
+        if isinstance(operation, (LoopBegin, ConditionalBegin)):
+            port_clocks_of_control_flow[index] = {
+                (info["port"], info["clock"]) for info in operation["pulse_info"]
+            }
+            if all(info.get("repetitions") == 1 for info in operation["pulse_info"]):
+                played_once.add(index)
+            control_flows.append(active)
+            active = (*active, index)
+        elif isinstance(operation, _ControlFlowReturn):
+            control_flows.append(active)
+            active = active[:-1]
+        else:
+            control_flows.append(active)
+
+    # Sorting is stable. This is the order in which the operations will be played.
+    events: list[tuple[int, int, dict]] = []
+    for index in sorted(range(len(operations)), key=lambda index: operations[index][0]):
+        time, operation = operations[index]
+        if isinstance(operation, (LoopBegin, ConditionalBegin, _ControlFlowReturn)):
+            events.append((to_grid_time(time), index, {}))
+        elif operation.name != "LatchReset":
+            for info in operation.data["pulse_info"] + operation.data["acquisition_info"]:
+                op_info = OpInfo(name=operation.name, data=info, timing=time)
+                if not (op_info.is_real_time_io_operation or op_info.is_parameter_instruction):
+                    continue
+                # Rounding errors are reported when the info is assigned to a device.
+                time_ns = round((time + info.get("t0", 0)) * 1e9)
+                events.append((time_ns, index, info))
+    events.sort(key=lambda event: event[0])
+
+    active_per_port_clock: dict[tuple[str, str], list[int]] = defaultdict(list)
+    for time_ns, index, info in events:
+        operation = operations[index][1]
+        if isinstance(operation, (LoopBegin, ConditionalBegin)):
+            for port_clock in port_clocks_of_control_flow[index]:
+                active_per_port_clock[port_clock].append(index)
+        elif isinstance(operation, _ControlFlowReturn):
+            control_flow = control_flows[index][-1]
+            for port_clock in port_clocks_of_control_flow[control_flow]:
+                if active_per_port_clock[port_clock].pop() != control_flow:
+                    raise RuntimeError(
+                        f"Control flow operations on the same port and clock {port_clock} overlap "
+                        f"at t={time_ns} ns, but none of them is a part of the other one."
+                    )
+        else:
+            for port_clock, active in active_per_port_clock.items():
+                if info["clock"] != port_clock[1] or info["port"] not in (None, port_clock[0]):
+                    continue
+                if not played_once.union(control_flows[index]).issuperset(active):
+                    raise RuntimeError(
+                        f"Operation at t={time_ns} ns is scheduled during a control flow "
+                        f"operation on the same port and clock {port_clock}, but is not part of "
+                        f"it:\n{operation!r}"
+                    )
+
+
 def _assign_pulse_info_to_devices(
     device_compilers: dict[str, ClusterCompiler],
     portclock_mapping: dict[str, str],
@@ -939,6 +1020,7 @@ def assign_pulse_and_acq_info_to_devices(
 
     list_of_operations: list[tuple[float, Operation, FullSchedulableLabel]] = list()
     _get_list_of_operations_for_op_info_creation(schedule, 0, list_of_operations, ())
+    _validate_control_flow_nesting([entry[:2] for entry in list_of_operations])
     list_of_operations.sort(key=lambda abs_time_and_op: abs_time_and_op[0])
 
     for operation_start_time, operation, optional_full_schedulable_label in list_of_operations:
-- 
2.43.0


From 297c9308b493bb863bbd39c2b68bb0c201f1e3ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:14 +0000
Subject: [PATCH 26/89] fix: compensate crosstalk for shared, repeated and
 nested operations and for all pulse types

---
 .../backends/qblox/crosstalk_compensation.py  | 216 ++++++++++--------
 1 file changed, 125 insertions(+), 91 deletions(-)

diff --git a/quantify_scheduler/backends/qblox/crosstalk_compensation.py b/quantify_scheduler/backends/qblox/crosstalk_compensation.py
index 472887e..2112b84 100644
--- a/quantify_scheduler/backends/qblox/crosstalk_compensation.py
+++ b/quantify_scheduler/backends/qblox/crosstalk_compensation.py
@@ -5,14 +5,15 @@
 from __future__ import annotations
 
 from copy import deepcopy
-from typing import TYPE_CHECKING
+from typing import TYPE_CHECKING, Any
 
 if TYPE_CHECKING:
     from quantify_scheduler.backends.graph_compilation import CompilationConfig
-    from quantify_scheduler.operations import Operation
 
 import numpy as np
 
+from quantify_scheduler.operations.control_flow_library import ControlFlowOperation
+from quantify_scheduler.operations.operation import Operation
 from quantify_scheduler.schedules import Schedulable, Schedule
 
 
@@ -49,20 +50,69 @@ def crosstalk_compensation(
         hardware_options.crosstalk, port_clock_list
     )
 
-    for schedulable in list(schedule.schedulables.values()):
-        operation = schedule.operations[schedulable["operation_id"]]
+    _compensate_schedule(schedule, port_clock_list, compensation_matrix)
+    return schedule
+
 
+def _compensate_schedule(
+    schedule: Schedule,
+    port_clock_list: list[str],
+    compensation_matrix: np.ndarray,
+) -> None:
+    # Operations can be shared, by schedulables and by other (sub)schedules, and therefore
+    # are never modified themselves.
+    original_operations = dict(schedule.operations)
+    for operation_id, operation in original_operations.items():
         if isinstance(operation, Schedule):
-            # Recursively apply compensation to nested schedules
-            schedule.operations[schedulable["operation_id"]] = crosstalk_compensation(
-                operation, config
+            schedule.operations[operation_id] = deepcopy(operation)
+            _compensate_schedule(
+                schedule.operations[operation_id], port_clock_list, compensation_matrix
             )
-        elif is_pulse(operation):
-            _apply_compensation_to_operation(
-                schedule, operation, schedulable, port_clock_list, compensation_matrix
+        elif isinstance(operation, ControlFlowOperation):
+            schedule.operations[operation_id] = deepcopy(operation)
+            _compensate_control_flow(
+                schedule.operations[operation_id], port_clock_list, compensation_matrix
             )
-
-    return schedule
+        elif _used_port_clocks(operation).intersection(port_clock_list):
+            del schedule.operations[operation_id]
+
+    schedulables = [
+        (key, schedulable, original_operations[schedulable["operation_id"]])
+        for key, schedulable in schedule.schedulables.items()
+    ]
+    schedulables = [
+        (key, schedulable, operation)
+        for key, schedulable, operation in schedulables
+        if not isinstance(operation, (Schedule, ControlFlowOperation))
+        and _used_port_clocks(operation).intersection(port_clock_list)
+    ]
+    for _, schedulable, operation in schedulables:
+        adjusted_operation = _adjust_amplitudes(operation, port_clock_list, compensation_matrix)
+        schedule.operations[adjusted_operation.hash] = adjusted_operation
+        schedulable["operation_id"] = adjusted_operation.hash
+    for key, schedulable, operation in schedulables:
+        _add_compensation_operations(
+            schedule, operation, key, schedulable, port_clock_list, compensation_matrix
+        )
+
+
+def _compensate_control_flow(
+    operation: ControlFlowOperation,
+    port_clock_list: list[str],
+    compensation_matrix: np.ndarray,
+) -> None:
+    if isinstance(operation.body, ControlFlowOperation):
+        _compensate_control_flow(operation.body, port_clock_list, compensation_matrix)
+        return
+    if not isinstance(operation.body, Schedule):
+        if not _used_port_clocks(operation.body).intersection(port_clock_list):
+            return
+        # There must be a place for the compensation operations.
+        body = Schedule("body")
+        body["duration"] = operation.body.duration
+        body.add(operation.body)["abs_time"] = 0
+        operation.body = body
+    _compensate_schedule(operation.body, port_clock_list, compensation_matrix)
 
 
 def _get_unique_port_clocks(crosstalk: dict[str, dict[str, float]]) -> list[str]:
@@ -93,86 +143,70 @@ def _construct_crosstalk_matrix(
     return matrix
 
 
-def is_pulse(operation: Operation) -> bool:
-    """
-    Check if the operation is a pulse.
-
-    Parameters
-    ----------
-    operation:
-        The operation to check.
-
-    Returns
-    -------
-    :
-        True if the operation is a pulse, False otherwise.
-
-    """
-    return (
-        len(operation.data["pulse_info"]) > 0
-        and operation.data["pulse_info"][0]["wf_func"] is not None
-    )
-
-
-def _apply_compensation_to_operation(
-    schedule: Schedule,
-    operation: Operation,
-    schedulable: Schedulable,
-    port_clock_list: list[str],
-    compensation_matrix: np.ndarray,
-) -> None:
-    port_clock = (
-        f"{operation.data['pulse_info'][0]['port']}-{operation.data['pulse_info'][0]['clock']}"
-    )
-    port_clock_index = port_clock_list.index(port_clock)
-    compensation_row = compensation_matrix[port_clock_index]
-
-    # Add compensation pulses to port clocks that are affected by crosstalk
-    for i, compensation_value in enumerate(compensation_row):
-        if compensation_value != 0 and i != port_clock_index:
-            _add_compensation_operation(
-                schedule,
-                operation,
-                schedulable,
-                port_clock_list[i],
-                compensation_value,
-                i,
-            )
-
-    # Adjust all params that have amp in them
-    for key in operation.data["pulse_info"][0]:
-        if "amp" in key:
-            operation.data["pulse_info"][0][key] *= compensation_row[port_clock_index]
-
-
-def _add_compensation_operation(
+def _used_port_clocks(operation: Operation) -> set[str]:
+    """The ports and clocks on which the operation plays a waveform."""
+    return {
+        f"{pulse_info['port']}-{pulse_info['clock']}"
+        for pulse_info in operation.data["pulse_info"]
+        if pulse_info.get("wf_func") is not None
+    }
+
+
+def _scale_amplitude(pulse_info: dict[str, Any], factor: complex) -> None:
+    """Multiply the waveform of a pulse by a factor."""
+    for key in pulse_info:
+        # The waveforms are linear in these parameters together. The derivative component of a DRAG
+        # pulse is defined relative to its Gaussian envelope.
+        if ("amp" in key and key not in ("D_amp", "t_samples")) or (
+            key == "offset" and pulse_info["wf_func"] == "quantify_scheduler.waveforms.ramp"
+        ):
+            scaled = np.multiply(pulse_info[key], factor)
+            pulse_info[key] = scaled.tolist() if isinstance(pulse_info[key], list) else scaled
+
+
+def _adjust_amplitudes(
+    operation: Operation, port_clock_list: list[str], compensation_matrix: np.ndarray
+) -> Operation:
+    adjusted_operation = deepcopy(operation)
+    for pulse_info in adjusted_operation.data["pulse_info"]:
+        port_clock = f"{pulse_info['port']}-{pulse_info['clock']}"
+        if pulse_info.get("wf_func") is not None and port_clock in port_clock_list:
+            index = port_clock_list.index(port_clock)
+            _scale_amplitude(pulse_info, compensation_matrix[index, index])
+    return adjusted_operation
+
+
+def _add_compensation_operations(
     schedule: Schedule,
     original_operation: Operation,
+    original_key: str,
     original_schedulable: Schedulable,
-    target_port_clock: str,
-    compensation_value: float,
-    index: int,
+    port_clock_list: list[str],
+    compensation_matrix: np.ndarray,
 ) -> None:
-    compensation_op = deepcopy(original_operation)
-    target_port, target_clock = target_port_clock.split("-")
-
-    # amp of compensation operation is product of the original amplitude and compensation value.
-    compensation_op.data["pulse_info"][0].update(
-        {
-            "port": target_port,
-            "clock": target_clock,
-        }
-    )
-    for key in compensation_op.data["pulse_info"][0]:
-        if "amp" in key:
-            compensation_op.data["pulse_info"][0][key] = (
-                original_operation.data["pulse_info"][0][key] * compensation_value
-            )
-
-    schedule.operations[compensation_op.hash] = compensation_op
-
-    compensation_schedulable = deepcopy(original_schedulable)
-    compensation_schedulable["operation_id"] = compensation_op.hash
-    schedule.schedulables[f"{original_operation.hash}_compensation_{index}"] = (
-        compensation_schedulable
-    )
+    """Add compensation pulses to port clocks that are affected by crosstalk."""
+    for pulse_index, pulse_info in enumerate(original_operation.data["pulse_info"]):
+        port_clock = f"{pulse_info['port']}-{pulse_info['clock']}"
+        if pulse_info.get("wf_func") is None or port_clock not in port_clock_list:
+            continue
+        port_clock_index = port_clock_list.index(port_clock)
+        for index, compensation_value in enumerate(compensation_matrix[port_clock_index]):
+            if compensation_value == 0 or index == port_clock_index:
+                continue
+            target_port, target_clock = port_clock_list[index].split("-")
+            compensation_info = deepcopy(pulse_info)
+            compensation_info.update({"port": target_port, "clock": target_clock})
+            # amp of compensation operation is product of the original amplitude and
+            # compensation value.
+            _scale_amplitude(compensation_info, compensation_value)
+
+            compensation_op = Operation(name=original_operation.name)
+            compensation_op.data["pulse_info"] = [compensation_info]
+            compensation_op._update()
+            schedule.operations[compensation_op.hash] = compensation_op
+
+            key = f"{original_key}_compensation_{pulse_index}_{index}"
+            compensation_schedulable = deepcopy(original_schedulable)
+            compensation_schedulable["name"] = key
+            compensation_schedulable["operation_id"] = compensation_op.hash
+            schedule.schedulables[key] = compensation_schedulable
-- 
2.43.0


From 08c886bfa873eecfbe0668d15f00f7b93b8be2d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:16 +0000
Subject: [PATCH 27/89] fix: keep the automatic RF switch on during loops and
 conditionals that contain microwave pulses

---
 .../backends/qblox/auto_rf_switch.py          | 77 +++++++++++++++++--
 1 file changed, 71 insertions(+), 6 deletions(-)

diff --git a/quantify_scheduler/backends/qblox/auto_rf_switch.py b/quantify_scheduler/backends/qblox/auto_rf_switch.py
index 07b3047..d869fed 100644
--- a/quantify_scheduler/backends/qblox/auto_rf_switch.py
+++ b/quantify_scheduler/backends/qblox/auto_rf_switch.py
@@ -11,6 +11,7 @@ from typing import TYPE_CHECKING
 
 if TYPE_CHECKING:
     from quantify_scheduler.backends.graph_compilation import CompilationConfig
+    from quantify_scheduler.operations.control_flow_library import ControlFlowOperation
     from quantify_scheduler.schedules.schedule import Schedule
 
 
@@ -156,6 +157,10 @@ def _collect_all_mw_events_recursive(
     control-flow bodies) and returns all events with *global* absolute times, i.e.
     times relative to the root schedule start.
 
+    A control-flow operation that contains microwave pulses or stitched pulses is returned
+    as one pulse with the duration of the control-flow operation, because the switch cannot
+    be toggled from outside while the control-flow operation is being executed.
+
     Regular microwave pulses (non-``None`` ``wf_func``, positive duration) are returned
     as :class:`MicrowavePulseInfo` objects.  :class:`~.VoltageOffset` operations
     (``wf_func=None``, ``duration=0``) on ``:mw`` ports are collected as
@@ -200,12 +205,11 @@ def _collect_all_mw_events_recursive(
             mw_pulses.extend(sub_pulses)
             vo_events.extend(sub_events)
         elif isinstance(operation, ControlFlowOperation):
-            if isinstance(operation.body, ScheduleBase):
-                sub_pulses, sub_events = _collect_all_mw_events_recursive(
-                    operation.body, schedulable_abs_time
-                )
-                mw_pulses.extend(sub_pulses)
-                vo_events.extend(sub_events)
+            cf_pulses, cf_events = _collect_control_flow_events(
+                schedulable_key, operation, schedulable_abs_time
+            )
+            mw_pulses.extend(cf_pulses)
+            vo_events.extend(cf_events)
         else:
             for pulse_info in operation.data.get("pulse_info", []):
                 port = pulse_info.get("port", "")
@@ -247,6 +251,67 @@ def _collect_all_mw_events_recursive(
     return mw_pulses, vo_events
 
 
+def _collect_control_flow_events(
+    schedulable_key: str,
+    operation: ControlFlowOperation,
+    abs_time: float,
+) -> tuple[list[MicrowavePulseInfo], list[VoltageOffsetEvent]]:
+    """
+    Collect microwave pulses and VoltageOffset events from a control-flow operation.
+
+    Parameters
+    ----------
+    schedulable_key
+        Key of the schedulable of the control-flow operation.
+    operation
+        The control-flow operation.
+    abs_time
+        The global absolute start time of the control-flow operation.
+
+    Returns
+    -------
+    tuple[list[MicrowavePulseInfo], list[VoltageOffsetEvent]]
+        One pulse for every port-clock on which the control-flow operation plays something,
+        and the state in which it leaves the voltage offset.
+
+    """
+    # Import here to avoid circular imports
+    from quantify_scheduler.schedules.schedule import Schedulable, Schedule, ScheduleBase
+
+    body = operation.body
+    if not isinstance(body, ScheduleBase):
+        body = Schedule("body")
+        body.operations[operation.body.hash] = operation.body
+        body.schedulables["body"] = Schedulable(name="body", operation_id=operation.body.hash)
+        body.schedulables["body"].data["abs_time"] = 0.0
+    pulses, events = _collect_all_mw_events_recursive(body, abs_time)
+
+    last_events = {
+        (event.port, event.clock): event for event in sorted(events, key=lambda e: e.abs_time)
+    }
+    end_time = abs_time + operation.duration
+    playing = dict.fromkeys((pulse.port, pulse.clock) for pulse in pulses)
+    playing.update(dict.fromkeys((event.port, event.clock) for event in events if event.is_nonzero))
+    return [
+        MicrowavePulseInfo(
+            schedulable_key=schedulable_key,
+            abs_time=abs_time,
+            duration=operation.duration,
+            port=port,
+            clock=clock,
+        )
+        for port, clock in playing
+    ], [
+        VoltageOffsetEvent(
+            abs_time=end_time,
+            port=event.port,
+            clock=event.clock,
+            is_nonzero=event.is_nonzero,
+        )
+        for event in last_events.values()
+    ]
+
+
 def _voltage_offset_events_to_pulses(
     events: list[VoltageOffsetEvent],
 ) -> list[MicrowavePulseInfo]:
-- 
2.43.0


From 06fa4fe9316d533a67bf1e9776515b84d5e16f77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:55 +0000
Subject: [PATCH 28/89] fix: turn the RF switch on before a microwave pulse at
 the start of the schedule

---
 quantify_scheduler/backends/qblox/auto_rf_switch.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/quantify_scheduler/backends/qblox/auto_rf_switch.py b/quantify_scheduler/backends/qblox/auto_rf_switch.py
index d869fed..60f4227 100644
--- a/quantify_scheduler/backends/qblox/auto_rf_switch.py
+++ b/quantify_scheduler/backends/qblox/auto_rf_switch.py
@@ -564,5 +564,5 @@ def _insert_rf_switch_operation(
     schedulable = Schedulable(name=schedulable_key, operation_id=rf_switch_op.hash)
     schedulable.data["abs_time"] = rf_switch_start
 
-    # Insert the schedulable into the schedule
-    schedule.schedulables[schedulable_key] = schedulable
+    # Insert the schedulable into the schedule, before operations that start at the same time.
+    schedule["schedulables"] = {schedulable_key: schedulable, **schedule.schedulables}
-- 
2.43.0


From 5ea585f6e5afb8840d70b204f64dfe2cff6bf08b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:32 +0000
Subject: [PATCH 29/89] fix: size and time pulse compensation exactly for every
 body and scheduling strategy

---
 quantify_scheduler/pulse_compensation.py | 45 ++++++++++++++++++------
 1 file changed, 34 insertions(+), 11 deletions(-)

diff --git a/quantify_scheduler/pulse_compensation.py b/quantify_scheduler/pulse_compensation.py
index b553554..2a91e5f 100644
--- a/quantify_scheduler/pulse_compensation.py
+++ b/quantify_scheduler/pulse_compensation.py
@@ -9,7 +9,11 @@ from copy import deepcopy
 from dataclasses import dataclass
 from typing import TYPE_CHECKING, overload
 
-from quantify_scheduler.compilation import _determine_absolute_timing
+from quantify_scheduler.compilation import (
+    _determine_absolute_timing,
+    _determine_scheduling_strategy,
+)
+from quantify_scheduler.enums import SchedulingStrategy
 from quantify_scheduler.helpers.waveforms import area_pulse
 from quantify_scheduler.operations.control_flow_library import (
     ConditionalOperation,
@@ -31,6 +35,10 @@ if TYPE_CHECKING:
     from quantify_scheduler.operations.operation import Operation
 
 
+_SUM_TOLERANCE = 1e-9
+"""Relative precision to which the sum of the pulses is known."""
+
+
 @dataclass
 class SumEnd:
     """Class to store the sum and end as floats."""
@@ -179,6 +187,7 @@ def _determine_compensation_pulse(
     max_compensation_amp: dict[Port, float],
     time_grid: float,
     sampling_rate: float,
+    config: CompilationConfig | None = None,
 ) -> dict[Port, CompensationPulseParams]:
     """
     Calculates the timing and the amplitude of a compensation pulse for each port.
@@ -202,6 +211,8 @@ def _determine_compensation_pulse(
         Time grid the compensation pulse needs to be on.
     sampling_rate
         Sampling rate of the pulses.
+    config
+        Compilation config, which determines the timing of the pulses in the operation.
 
     Returns
     -------
@@ -213,9 +224,9 @@ def _determine_compensation_pulse(
     pulses_start_duration_amp: dict[Port, CompensationPulseParams] = {}
 
     operation_with_abs_times = (
-        operation
-        if not isinstance(operation, Schedule)
-        else _determine_absolute_timing(deepcopy(operation), None)
+        _determine_absolute_timing(deepcopy(operation), config=config)
+        if isinstance(operation, (ScheduleBase, ControlFlowOperation))
+        else operation
     )
     ports: set[str] = set(max_compensation_amp.keys())
     pulses_sum_end: dict[Port, SumEnd] = _determine_sum_and_end_of_all_pulses(
@@ -223,13 +234,17 @@ def _determine_compensation_pulse(
     )
 
     for port, pulse_sum_end in pulses_sum_end.items():
-        if pulse_sum_end.sum != 0 and port in max_compensation_amp:
-            sum_abs: float = abs(pulse_sum_end.sum)
-
-            duration: float = (
-                math.ceil(sum_abs / time_grid / max_compensation_amp[port]) * time_grid
-            )
+        if port not in max_compensation_amp:
+            continue
+        max_amp: float = max_compensation_amp[port]
+        # Number of grid periods needed at the maximum amplitude; differences
+        # within the floating point precision of the sum are disregarded.
+        num_grid_periods: float = abs(pulse_sum_end.sum) / time_grid / max_amp
+        if num_grid_periods > _SUM_TOLERANCE:
+            duration: float = math.ceil(num_grid_periods * (1 - _SUM_TOLERANCE)) * time_grid
             amp: float = -pulse_sum_end.sum / duration
+            if abs(amp) > max_amp:
+                amp *= max_amp / abs(amp)
             pulses_start_duration_amp[port] = CompensationPulseParams(
                 start=pulse_sum_end.end, duration=duration, amp=amp
             )
@@ -289,13 +304,14 @@ def process_compensation_pulses(
         return operation
     elif isinstance(operation, PulseCompensation):
         # Inner pulse compensated blocks need to be resolved first.
-        resolved_body = process_compensation_pulses(operation.body)
+        resolved_body = process_compensation_pulses(operation.body, config)
         all_compensation_pulse_params: dict[Port, CompensationPulseParams] = (
             _determine_compensation_pulse(
                 resolved_body,
                 operation.max_compensation_amp,
                 operation.time_grid,
                 operation.sampling_rate,
+                config,
             )
         )
 
@@ -319,5 +335,12 @@ def process_compensation_pulses(
                 ref_pt_new="start",
             )
 
+        if _determine_scheduling_strategy(config) == SchedulingStrategy.ALAP:
+            # By default every operation is timed relative to the next one; the body
+            # must be the last one to be free of a reference to a compensation pulse.
+            schedulables = pulse_compensated_schedule.schedulables
+            body_name: str = first_op_schedulable["name"]
+            schedulables[body_name] = schedulables.pop(body_name)
+
         return pulse_compensated_schedule
     return schedule
-- 
2.43.0


From 758510b6b81f5e085f8189d71d49dbec51b9e32e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:13 +0000
Subject: [PATCH 30/89] fix: merge Rz gates only when simultaneous and without
 altering shared operations

---
 quantify_scheduler/compilation.py | 67 ++++++++++++++++++++++++-------
 1 file changed, 53 insertions(+), 14 deletions(-)

diff --git a/quantify_scheduler/compilation.py b/quantify_scheduler/compilation.py
index 038f029..bbbed9d 100644
--- a/quantify_scheduler/compilation.py
+++ b/quantify_scheduler/compilation.py
@@ -405,6 +405,24 @@ def _normalize_absolute_timing(
     return schedule
 
 
+def _is_simultaneous(
+    first: Schedulable, second: Schedulable, strategy: SchedulingStrategy
+) -> bool:
+    """
+    Determine if two consecutive schedulables of zero duration are executed at the same time.
+
+    Only the timing constraint between the two is considered, i.e. the answer can be
+    ``False`` for schedulables that are simultaneous because of other constraints.
+    """
+    later, reference = (first, second) if strategy == SchedulingStrategy.ALAP else (second, first)
+    timing_constraints: list[TimingConstraint] = later.data["timing_constraints"]
+    return (
+        len(timing_constraints) == 1
+        and timing_constraints[0].ref_schedulable in (None, reference["name"])
+        and not timing_constraints[0].rel_time
+    )
+
+
 @overload
 def _merge_rz_gates(
     schedule: Schedule,
@@ -431,27 +449,48 @@ def _merge_rz_gates(
                 config=config,
             )
 
-        last_op = None
+        strategy = _determine_scheduling_strategy(config)
+        # The schedulable that receives the merged rotation, and the last one merged into it
+        first_sched: Schedulable | None = None
+        last_sched: Schedulable | None = None
         # Copy list so we can modify it while iterating
         for inner_sched_key in list(op.schedulables):
             inner_sched = op.schedulables[inner_sched_key]
             inner_op = op.operations[inner_sched["operation_id"]]
 
-            # Merge Rz gates if possible
-            if (
-                isinstance(inner_op, Rz)
-                and isinstance(last_op, Rz)
-                and inner_op.qubit == last_op.qubit
-            ):
-                last_op.theta += inner_op.theta
-                noop = IdlePulse(0)
-                noop_id = noop.hash
-                op.operations[noop_id] = noop
-                inner_sched["operation_id"] = noop_id
+            if not isinstance(inner_op, Rz):
+                first_sched = last_sched = None
                 continue
 
-            # Record last
-            last_op = inner_op
+            # Merge Rz gates if possible
+            if first_sched is not None and last_sched is not None:
+                first_op = op.operations[first_sched["operation_id"]]
+                if (
+                    inner_op.qubit == first_op.qubit
+                    and inner_op.data["gate_info"]["device_overrides"]
+                    == first_op.data["gate_info"]["device_overrides"]
+                    and _is_simultaneous(last_sched, inner_sched, strategy)
+                ):
+                    # The operations can be in use elsewhere, so they are replaced, not changed.
+                    merged_op = Rz(
+                        first_op.theta + inner_op.theta,
+                        first_op.qubit,
+                        **first_op.data["gate_info"]["device_overrides"],
+                    )
+                    merged_op.theta = first_op.theta + inner_op.theta
+                    noop = IdlePulse(0)
+                    for schedulable, new_op in ((first_sched, merged_op), (inner_sched, noop)):
+                        op.operations[new_op.hash] = new_op
+                        schedulable["operation_id"] = new_op.hash
+                    last_sched = inner_sched
+                    continue
+
+            first_sched = last_sched = inner_sched
+
+        used_operations = {sched["operation_id"] for sched in op.schedulables.values()}
+        for inner_op_key in list(op.operations):
+            if inner_op_key not in used_operations:
+                del op.operations[inner_op_key]
 
         return op
     elif isinstance(op, ControlFlowOperation):
-- 
2.43.0


From c9851443d843cd4ca49fa2042930577d958d17fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:03 +0000
Subject: [PATCH 31/89] fix: store a LongTimeTrace under the acquisition
 channel of the measurement

---
 quantify_scheduler/operations/measurement_factories.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantify_scheduler/operations/measurement_factories.py b/quantify_scheduler/operations/measurement_factories.py
index 6198d44..e226364 100644
--- a/quantify_scheduler/operations/measurement_factories.py
+++ b/quantify_scheduler/operations/measurement_factories.py
@@ -344,7 +344,7 @@ def _dispersive_measurement(  # noqa: PLR0915
             port=port,
             clock=clock,
             duration=acq_duration,
-            acq_channel=0,
+            acq_channel=acq_channel,
             coords=coords,
             acq_index=acq_index,
             bin_mode=bin_mode,
-- 
2.43.0


From a92df97b9cc649c6ad3a80a6f8795730a3eef9b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:16 +0000
Subject: [PATCH 32/89] fix: start the operation after an early measurement by
 its own acquisition delay and frequency

---
 .../backends/circuit_to_device.py             | 21 ++++++++++---------
 .../operations/measurement_factories.py       |  9 ++++++--
 2 files changed, 18 insertions(+), 12 deletions(-)

diff --git a/quantify_scheduler/backends/circuit_to_device.py b/quantify_scheduler/backends/circuit_to_device.py
index db179f1..e3d2e0c 100644
--- a/quantify_scheduler/backends/circuit_to_device.py
+++ b/quantify_scheduler/backends/circuit_to_device.py
@@ -744,11 +744,6 @@ def _get_device_repr_from_cfg(
     factory_func = operation_cfg.factory_func
 
     factory_kwargs: dict = operation_cfg.factory_kwargs
-    if (
-        isinstance(operation, Measure)
-        and not operation.data["gate_info"]["apply_acquisition_delay"]
-    ):
-        factory_kwargs["next_operation_delay"] = -factory_kwargs["acq_delay"]
 
     # retrieve keyword args for parametrized operations from the gate info
     if operation_cfg.gate_info_factory_kwargs is not None:
@@ -760,6 +755,12 @@ def _get_device_repr_from_cfg(
         if key in factory_kwargs:
             factory_kwargs[key] = value
 
+    if (
+        isinstance(operation, Measure)
+        and not operation.data["gate_info"]["apply_acquisition_delay"]
+    ):
+        factory_kwargs["next_operation_delay"] = -factory_kwargs["acq_delay"]
+
     assert factory_func is not None
     return factory_func(**factory_kwargs)
 
@@ -791,17 +792,17 @@ def _get_device_repr_from_cfg_multiplexed(
             else:
                 factory_kwargs[key] = gate_info
 
+    # Add operation defined custom device overrides.
+    for key, value in device_overrides.items():
+        if key in factory_kwargs:
+            factory_kwargs[key] = value
+
     if (
         isinstance(operation, Measure)
         and not operation.data["gate_info"]["apply_acquisition_delay"]
     ):
         factory_kwargs["next_operation_delay"] = -factory_kwargs["acq_delay"]
 
-    # Add operation defined custom device overrides.
-    for key, value in device_overrides.items():
-        if key in factory_kwargs:
-            factory_kwargs[key] = value
-
     assert factory_func is not None
     return factory_func(**factory_kwargs)
 
diff --git a/quantify_scheduler/operations/measurement_factories.py b/quantify_scheduler/operations/measurement_factories.py
index e226364..d949707 100644
--- a/quantify_scheduler/operations/measurement_factories.py
+++ b/quantify_scheduler/operations/measurement_factories.py
@@ -148,7 +148,10 @@ def _dispersive_measurement(  # noqa: PLR0915
     schedule_data = {}
     if next_operation_delay:
         schedule_data["next_operation_delay"] = next_operation_delay
-    subschedule = Schedule("dispersive_measurement", data=schedule_data)
+    # If the measurement is wrapped (see below), the delay concerns the outermost schedule.
+    subschedule = Schedule(
+        "dispersive_measurement", data=schedule_data if freq is None else None
+    )
 
     if acq_protocol != "LongTimeTrace":
         if reset_clock_phase:
@@ -377,7 +380,9 @@ def _dispersive_measurement(  # noqa: PLR0915
         raise ValueError(f'Acquisition protocol "{acq_protocol}" is not supported.')
 
     if freq is not None:
-        subschedule_with_freq = Schedule("dispersive_measurement_with_freq")
+        subschedule_with_freq = Schedule(
+            "dispersive_measurement_with_freq", data=schedule_data
+        )
         subschedule_with_freq.add(SetClockFrequency(clock=clock, clock_freq_new=freq))
         subschedule_with_freq.add(subschedule)
         subschedule_with_freq.add(SetClockFrequency(clock=clock, clock_freq_new=None))
-- 
2.43.0


From 8488840fcdc2a5868d9f754a5fbcdeba0a3e9a7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:16 +0000
Subject: [PATCH 33/89] fix: keep the calibrated timing of measurements under
 as-late-as-possible scheduling

---
 .../backends/circuit_to_device.py             | 26 +++++++------------
 quantify_scheduler/compilation.py             | 11 +++++---
 .../operations/measurement_factories.py       |  8 ++++++
 3 files changed, 26 insertions(+), 19 deletions(-)

diff --git a/quantify_scheduler/backends/circuit_to_device.py b/quantify_scheduler/backends/circuit_to_device.py
index e3d2e0c..7c315c5 100644
--- a/quantify_scheduler/backends/circuit_to_device.py
+++ b/quantify_scheduler/backends/circuit_to_device.py
@@ -24,7 +24,7 @@ from quantify_scheduler.operations.pulse_compensation_library import (
     PulseCompensation,
 )
 from quantify_scheduler.resources import ClockResource
-from quantify_scheduler.schedules.schedule import Schedulable, Schedule, ScheduleBase
+from quantify_scheduler.schedules.schedule import Schedule, ScheduleBase
 
 if TYPE_CHECKING:
     from collections.abc import Sequence
@@ -524,24 +524,18 @@ def _compile_multiplexed(
 
     if len(inner_subschedules) != 0:
         inner_schedule: Schedule = Schedule(f"Inner schedule for {operation!s}")
-        # All operations in the inner schedule
-        # should happen at the same time;
-        # this reference time is the start time
-        # of the `ref_schedulable` operation / schedule
-        ref_schedulable: Schedulable | None = None
+        # All operations in the inner schedule should start at the same time; as every
+        # operation is aligned with its neighbour, this holds for every scheduling strategy.
         if operation_has_device_representation:
-            ref_schedulable = inner_schedule.add(operation)
+            inner_subschedules.insert(0, operation)
 
         for inner_subschedule in inner_subschedules:
-            if ref_schedulable is not None:
-                inner_schedule.add(
-                    operation=inner_subschedule,
-                    rel_time=0,
-                    ref_op=ref_schedulable,
-                    ref_pt="start",
-                )
-            else:
-                ref_schedulable = inner_schedule.add(operation=inner_subschedule)
+            inner_schedule.add(
+                operation=inner_subschedule,
+                rel_time=0,
+                ref_pt="start",
+                ref_pt_new="start",
+            )
 
         # Aggregate next_operation_delay from inner subschedules.
         # For MUX RO, we want the next operation to start after the longest
diff --git a/quantify_scheduler/compilation.py b/quantify_scheduler/compilation.py
index bbbed9d..0aaf866 100644
--- a/quantify_scheduler/compilation.py
+++ b/quantify_scheduler/compilation.py
@@ -161,7 +161,7 @@ def _determine_absolute_timing_schedule(
 
     schedulables_sorted_by_reference = nx.topological_sort(references_graph)
     schedulables_sorted_by_reference = _apply_operation_delays(
-        schedule, schedulables_sorted_by_reference
+        schedule, schedulables_sorted_by_reference, scheduling_strategy
     )
     for i, schedulable_name in enumerate(schedulables_sorted_by_reference):
         i: int
@@ -210,7 +210,9 @@ def _validate_schedulable_references(schedule: Schedule, references_graph: nx.Di
 
 
 def _apply_operation_delays(
-    schedule: Schedule, schedulables_sorted_by_reference: Iterator[str]
+    schedule: Schedule,
+    schedulables_sorted_by_reference: Iterator[str],
+    strategy: SchedulingStrategy,
 ) -> Generator[str, None, None]:
     delays = {}
     for schedulable_name in schedulables_sorted_by_reference:
@@ -219,7 +221,10 @@ def _apply_operation_delays(
         if "next_operation_delay" in operation.data:
             delays[schedulable_name] = operation.data["next_operation_delay"]
         for timing_constraint in schedulable.data["timing_constraints"]:
-            if timing_constraint.ref_schedulable in delays:
+            if strategy == SchedulingStrategy.ALAP:
+                # The operation with the delay refers to the next operation.
+                timing_constraint.rel_time -= delays.get(schedulable_name, 0)
+            elif timing_constraint.ref_schedulable in delays:
                 timing_constraint.rel_time += delays[timing_constraint.ref_schedulable]
         yield schedulable_name
 
diff --git a/quantify_scheduler/operations/measurement_factories.py b/quantify_scheduler/operations/measurement_factories.py
index d949707..644b410 100644
--- a/quantify_scheduler/operations/measurement_factories.py
+++ b/quantify_scheduler/operations/measurement_factories.py
@@ -167,6 +167,7 @@ def _dispersive_measurement(  # noqa: PLR0915
                     reference_magnitude=reference_magnitude,
                 ),
                 ref_pt="start",
+                ref_pt_new="start",
             )
         else:
             raise NotImplementedError(
@@ -185,6 +186,7 @@ def _dispersive_measurement(  # noqa: PLR0915
                     reference_magnitude=reference_magnitude,
                 ),
                 ref_pt="start",
+                ref_pt_new="start",
             )
 
     if acq_protocol is None:
@@ -206,6 +208,7 @@ def _dispersive_measurement(  # noqa: PLR0915
                 t0=acq_delay,
             ),
             ref_pt="start",
+            ref_pt_new="start",
         )
     elif acq_protocol in (
         "NumericalSeparatedWeightedIntegration",
@@ -244,6 +247,7 @@ def _dispersive_measurement(  # noqa: PLR0915
                     t0=acq_delay,
                 ),
                 ref_pt="start",
+                ref_pt_new="start",
             )
         elif acq_protocol == "NumericalWeightedIntegration":
             subschedule.add(
@@ -260,6 +264,7 @@ def _dispersive_measurement(  # noqa: PLR0915
                     t0=acq_delay,
                 ),
                 ref_pt="start",
+                ref_pt_new="start",
             )
         elif acq_protocol == "WeightedThresholdedAcquisition":
             subschedule.add(
@@ -278,6 +283,7 @@ def _dispersive_measurement(  # noqa: PLR0915
                     acq_threshold=acq_threshold,
                 ),
                 ref_pt="start",
+                ref_pt_new="start",
             )
     elif acq_protocol == "ThresholdedAcquisition":
         subschedule.add(
@@ -295,6 +301,7 @@ def _dispersive_measurement(  # noqa: PLR0915
                 acq_threshold=acq_threshold,
             ),
             ref_pt="start",
+            ref_pt_new="start",
         )
     elif acq_protocol == "Trace":
         subschedule.add(
@@ -308,6 +315,7 @@ def _dispersive_measurement(  # noqa: PLR0915
                 t0=acq_delay,
             ),
             ref_pt="start",
+            ref_pt_new="start",
         )
     elif acq_protocol == "LongTimeTrace":
         if bin_mode != BinMode.APPEND:
-- 
2.43.0


From 26558618b7bc263a5ea88a9984a49b7136b7242b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:07 +0000
Subject: [PATCH 34/89] fix: SetClockFrequency moves the NCO down when a
 downconverter is used

---
 quantify_scheduler/backends/qblox/analog.py           | 11 ++++++++++-
 .../backends/qblox/operation_handling/virtual.py      | 11 ++++++-----
 2 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/quantify_scheduler/backends/qblox/analog.py b/quantify_scheduler/backends/qblox/analog.py
index 643f1bc..d828180 100644
--- a/quantify_scheduler/backends/qblox/analog.py
+++ b/quantify_scheduler/backends/qblox/analog.py
@@ -444,6 +444,11 @@ class AnalogSequencerCompiler(SequencerCompiler):
         super().prepare()
 
     def _update_set_clock_frequency_operations(self) -> None:
+        # With downconversion (which baseband modules only do with an external LO), the
+        # output frequency decreases when the clock frequency increases.
+        downconverted = self.downconverter_freq is not None and (
+            self.associated_ext_lo is not None or isinstance(self.parent, RFModuleCompiler)
+        )
         for op_strat in self.op_strategies:
             if op_strat.operation_info.name == SetClockFrequency.__name__:
                 # The operation info may be shared with other sequencers on the same clock,
@@ -451,7 +456,11 @@ class AnalogSequencerCompiler(SequencerCompiler):
                 op_info = op_strat.operation_info
                 op_strat._op_info = OpInfo(
                     name=op_info.name,
-                    data={**op_info.data, "interm_freq_old": self.frequency},
+                    data={
+                        **op_info.data,
+                        "interm_freq_old": self.frequency,
+                        "downconverted": downconverted,
+                    },
                     timing=op_info.timing,
                 )
 
diff --git a/quantify_scheduler/backends/qblox/operation_handling/virtual.py b/quantify_scheduler/backends/qblox/operation_handling/virtual.py
index fd13b5c..1aa1da7 100644
--- a/quantify_scheduler/backends/qblox/operation_handling/virtual.py
+++ b/quantify_scheduler/backends/qblox/operation_handling/virtual.py
@@ -145,11 +145,12 @@ class NcoSetClockFrequencyStrategy(IdleStrategy):
                 f"the hardware config."
             )
 
-        interm_freq_new = (
-            (interm_freq_old + clock_freq_new - clock_freq_old)
-            if (clock_freq_new is not None)
-            else interm_freq_old
-        )
+        if clock_freq_new is None:
+            interm_freq_new = interm_freq_old
+        elif self.operation_info.data.get("downconverted", False):
+            interm_freq_new = interm_freq_old - (clock_freq_new - clock_freq_old)
+        else:
+            interm_freq_new = interm_freq_old + clock_freq_new - clock_freq_old
 
         frequency_args = helpers.get_nco_set_frequency_arguments(interm_freq_new)
         qasm_program.emit(
-- 
2.43.0


From 4f5d97d0c4377cc5a1fa222cf72960ec54731ac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:08 +0000
Subject: [PATCH 35/89] fix: local oscillators shared by several port-clocks or
 mixers

The lo_freq of a later port-clock on the same output silently replaced (or
removed) an earlier one; an external local oscillator ignored every lo_freq but
the first, and was only associated with the last of the mixers it feeds; its
frequency was compared exactly, refusing settings that differ by rounding.
---
 .../backends/qblox/instrument_compilers.py    |  3 +-
 quantify_scheduler/backends/qblox_backend.py  | 40 ++++++++++++++----
 quantify_scheduler/backends/types/qblox.py    | 41 ++++++++++++++++++-
 3 files changed, 74 insertions(+), 10 deletions(-)

diff --git a/quantify_scheduler/backends/qblox/instrument_compilers.py b/quantify_scheduler/backends/qblox/instrument_compilers.py
index ef3631d..51b2eac 100644
--- a/quantify_scheduler/backends/qblox/instrument_compilers.py
+++ b/quantify_scheduler/backends/qblox/instrument_compilers.py
@@ -4,6 +4,7 @@
 
 from __future__ import annotations
 
+import math
 import warnings
 from collections import defaultdict
 from itertools import chain
@@ -126,7 +127,7 @@ class LocalOscillatorCompiler(compiler_abc.InstrumentCompiler):
             indicate an invalid configuration in the hardware mapping.
 
         """
-        if self._frequency is not None and value != self._frequency:
+        if self._frequency is not None and not math.isclose(value, self._frequency):
             raise ValueError(
                 f"Attempting to set LO {self.name} to frequency {value}, "
                 f"while it has previously already been set to "
diff --git a/quantify_scheduler/backends/qblox_backend.py b/quantify_scheduler/backends/qblox_backend.py
index 6628613..575dd8e 100644
--- a/quantify_scheduler/backends/qblox_backend.py
+++ b/quantify_scheduler/backends/qblox_backend.py
@@ -65,6 +65,7 @@ from quantify_scheduler.backends.types.qblox import (
     RealChannelDescription,
     RealInputGain,
     SequencerOptions,
+    merge_lo_frequencies,
 )
 from quantify_scheduler.enums import DualThresholdedTriggerCountLabels, TriggerCondition
 from quantify_scheduler.helpers.generate_acq_channels_data import (
@@ -1024,12 +1025,13 @@ class QbloxHardwareCompilationConfig(HardwareCompilationConfig):
                     if portclock not in cfg.portclock_to_path:
                         continue
 
-                    for lo_name, lo_path in cfg.lo_to_path.items():
+                    for lo_name, lo_path in cfg._lo_names_and_paths():
                         if cfg.portclock_to_path[portclock] == lo_path:
                             lo_config = lo_configs[lo_name]
-                            if lo_config.hardware_description.instrument_name is None:
-                                lo_config.hardware_description.instrument_name = lo_name
-                                lo_config.frequency = frequencies.lo_freq
+                            lo_config.hardware_description.instrument_name = lo_name
+                            lo_config.frequency = merge_lo_frequencies(
+                                lo_name, lo_config.frequency, frequencies.lo_freq
+                            )
 
         # Extract hardware options
         clusters_hardware_options: dict[str, dict[str, dict[str, Any]]] = defaultdict(
@@ -1215,7 +1217,11 @@ class QbloxHardwareCompilationConfig(HardwareCompilationConfig):
                     mixer = port_nbr[: port_nbr.rindex(".")]
                     mixer_path, mixer_lo = get_module_and_lo_for_mixer(mixer)
                     path = ChannelPath.from_path(mixer_path)
-                    cluster_lo_to_path[path.cluster_name][mixer_lo] = path
+                    if cluster_lo_to_path[path.cluster_name].setdefault(mixer_lo, path) != path:
+                        # The same local oscillator is connected to several mixers.
+                        cluster_configs[path.cluster_name].additional_lo_paths.setdefault(
+                            mixer_lo, []
+                        ).append(path)
                     for clock in clocks:
                         # NV center hack:
                         fixed_clock = get_optical_clock(mixer, clocks) or clock
@@ -1275,6 +1281,8 @@ class _ClusterModuleCompilationConfig(ABC, DataStructure):
     lo_to_path: dict[str, ChannelPath] = {}
     """Mapping between lo names and their associated channel name paths
     (e.g. cluster0.module1.complex_output_0)."""
+    additional_lo_paths: dict[str, list[ChannelPath]] = {}
+    """Further channel name paths of local oscillators connected to several mixers."""
     parent_config_version: str
     """
     Version of the parent hardware compilation config used.
@@ -1282,6 +1290,12 @@ class _ClusterModuleCompilationConfig(ABC, DataStructure):
     sequencer_allowed_channels: dict[SequencerIndex, AllowedChannels]
     """Allowed channels for each sequencer."""
 
+    def _lo_names_and_paths(self) -> Iterable[tuple[str, ChannelPath]]:
+        """All combinations of a local oscillator and a channel it is mixed with."""
+        yield from self.lo_to_path.items()
+        for lo_name, paths in self.additional_lo_paths.items():
+            yield from ((lo_name, path) for path in paths)
+
     def _sequencer_to_portclock(self) -> dict[SequencerIndex, str]:
         # This logic assumes that each sequencer uses at most
         # only one output, and one input. This is only a current
@@ -1336,7 +1350,7 @@ class _ClusterModuleCompilationConfig(ABC, DataStructure):
         self,
     ) -> dict[int, _SequencerCompilationConfig]:
         sequencer_configs = {}
-        channel_to_lo = {path.channel_name: lo_name for lo_name, path in self.lo_to_path.items()}
+        channel_to_lo = {path.channel_name: lo_name for lo_name, path in self._lo_names_and_paths()}
 
         for seq_idx, portclock in self._sequencer_to_portclock().items():
             path = self.portclock_to_path[portclock]
@@ -1775,6 +1789,8 @@ class _ClusterCompilationConfig(DataStructure):
     lo_to_path: dict[str, ChannelPath] = {}
     """Mapping between lo names and their associated channel name paths
     (e.g. cluster0.module1.complex_output_0)."""
+    additional_lo_paths: dict[str, list[ChannelPath]] = {}
+    """Further channel name paths of local oscillators connected to several mixers."""
     parent_config_version: str
     """
     Version of the parent hardware compilation config used.
@@ -1789,6 +1805,12 @@ class _ClusterCompilationConfig(DataStructure):
         "QTM": _QTMCompilationConfig,
     }
 
+    def _lo_names_and_paths(self) -> Iterable[tuple[str, ChannelPath]]:
+        """All combinations of a local oscillator and a channel it is mixed with."""
+        yield from self.lo_to_path.items()
+        for lo_name, paths in self.additional_lo_paths.items():
+            yield from ((lo_name, path) for path in paths)
+
     def _extract_module_compilation_configs(
         self,
     ) -> dict[int, _ClusterModuleCompilationConfig]:
@@ -1827,8 +1849,10 @@ class _ClusterCompilationConfig(DataStructure):
             module_configs[path.module_idx].portclock_to_path[portclock] = path
 
         # Distribute `lo_to_path`
-        for lo_name, path in self.lo_to_path.items():
-            module_configs[path.module_idx].lo_to_path[lo_name] = path
+        for lo_name, path in self._lo_names_and_paths():
+            module_config = module_configs[path.module_idx]
+            if module_config.lo_to_path.setdefault(lo_name, path) != path:
+                module_config.additional_lo_paths.setdefault(lo_name, []).append(path)
 
         # Add support for old versions of hardware config
         if self.parent_config_version == "0.1":
diff --git a/quantify_scheduler/backends/types/qblox.py b/quantify_scheduler/backends/types/qblox.py
index 7bced1e..653b899 100644
--- a/quantify_scheduler/backends/types/qblox.py
+++ b/quantify_scheduler/backends/types/qblox.py
@@ -4,6 +4,7 @@
 
 from __future__ import annotations
 
+import math
 import warnings
 from collections.abc import Callable
 from dataclasses import dataclass
@@ -490,6 +491,42 @@ class BasebandModuleSettings(AnalogModuleSettings):
     """
 
 
+def merge_lo_frequencies(
+    lo_name: str, frequency: float | None, new_frequency: float | None
+) -> float | None:
+    """
+    Combine the frequencies that several port-clocks specify for one local oscillator.
+
+    Parameters
+    ----------
+    lo_name
+        The name of the local oscillator, for the error message.
+    frequency
+        The frequency determined so far, if any.
+    new_frequency
+        The frequency that is specified for the next port-clock, if any.
+
+    Returns
+    -------
+    :
+        The frequency of the local oscillator, if any.
+
+    Raises
+    ------
+    ValueError
+        If the frequencies differ.
+
+    """
+    if new_frequency is None or math.isnan(new_frequency):
+        return frequency
+    if frequency is not None and not math.isclose(frequency, new_frequency):
+        raise ValueError(
+            f"Conflicting frequencies are specified for '{lo_name}': {frequency:e} and "
+            f"{new_frequency:e}."
+        )
+    return new_frequency
+
+
 @dataclass
 class RFModuleSettings(AnalogModuleSettings):
     """
@@ -571,7 +608,9 @@ class RFModuleSettings(AnalogModuleSettings):
                 if (
                     lo_freq_setting := channel_name_to_lo_freq_setting.get(path.channel_name)
                 ) is not None:
-                    rf_settings[lo_freq_setting] = lo_freq
+                    rf_settings[lo_freq_setting] = merge_lo_frequencies(
+                        lo_freq_setting, rf_settings.get(lo_freq_setting), lo_freq
+                    )
 
         combined_settings = {**rf_settings, **kwargs}
         return cls(**combined_settings)
-- 
2.43.0


From 7e74275e4d611edf5fc904dd137e6bde04abf7ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:03 +0000
Subject: [PATCH 36/89] fix: write numpy scalars to JSON as numbers instead of
 null

---
 quantify_scheduler/json_utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/quantify_scheduler/json_utils.py b/quantify_scheduler/json_utils.py
index fa85b92..94d52b2 100644
--- a/quantify_scheduler/json_utils.py
+++ b/quantify_scheduler/json_utils.py
@@ -399,6 +399,9 @@ class SchedulerJSONEncoder(json.JSONEncoder):
                     "mode": "__init__",
                     "data": list(o),
                 }
+            elif isinstance(o, np.generic):
+                # All other numpy scalars are stored as the equal python number.
+                return o.item()
             elif o in DEFAULT_TYPES:
                 assert isinstance(o, type)
                 return {"deserialization_type": o.__name__, "mode": "type"}
-- 
2.43.0


From eb14e99a8e9ca8be051bb1f236990c556eee6377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:03 +0000
Subject: [PATCH 37/89] fix: restore device elements of legacy serialized
 operations

---
 quantify_scheduler/operations/operation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/quantify_scheduler/operations/operation.py b/quantify_scheduler/operations/operation.py
index f9bbf87..2362c7b 100644
--- a/quantify_scheduler/operations/operation.py
+++ b/quantify_scheduler/operations/operation.py
@@ -118,8 +118,8 @@ class Operation(JSONSchemaValMixin, UserDict):
             (qubits := gate_info.get("qubits")) is not None
         ):
             new_gate_info = deepcopy(gate_info)
-            if gate_info.get("device_elements") is not None:
-                gate_info["device_elements"] = qubits
+            if new_gate_info.get("device_elements") is None:
+                new_gate_info["device_elements"] = qubits
             new_gate_info.pop("qubits")
             data["gate_info"] = new_gate_info
         self.data = data
-- 
2.43.0


From 7cd28eaa58ee155648f4abf82bfc8bc89871b69d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:03 +0000
Subject: [PATCH 38/89] fix: compare resources by content rather than by
 textual form

---
 quantify_scheduler/resources.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantify_scheduler/resources.py b/quantify_scheduler/resources.py
index f913125..b1cef12 100644
--- a/quantify_scheduler/resources.py
+++ b/quantify_scheduler/resources.py
@@ -51,7 +51,7 @@ class Resource(UserDict):
         :
 
         """
-        return repr(self) == repr(other)
+        return self.data == getattr(other, "data", other)
 
     def __str__(self) -> str:
         """
-- 
2.43.0


From a3826630ab5e514008f7d780ff9db9944c58d40f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:03 +0000
Subject: [PATCH 39/89] fix: keep the program of InlineQ1ASM in JSON and pickle

---
 .../backends/qblox/operations/inline_q1asm.py | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/quantify_scheduler/backends/qblox/operations/inline_q1asm.py b/quantify_scheduler/backends/qblox/operations/inline_q1asm.py
index 96d2e02..9a0f643 100644
--- a/quantify_scheduler/backends/qblox/operations/inline_q1asm.py
+++ b/quantify_scheduler/backends/qblox/operations/inline_q1asm.py
@@ -9,6 +9,7 @@ from copy import deepcopy
 
 from quantify_scheduler.backends.types.qblox import OpInfo
 from quantify_scheduler.helpers.collections import make_hash
+from quantify_scheduler.helpers.importers import export_python_object_to_path_string
 from quantify_scheduler.operations.operation import Operation
 
 
@@ -122,6 +123,24 @@ class InlineQ1ASM(Operation):
             parameter_list.append(f"{parameter}={cur_atr}")
         return f"{self._name}({', '.join(parameter_list)})"
 
+    def __getstate__(self) -> dict[str, object]:
+        return {
+            "deserialization_type": export_python_object_to_path_string(self.__class__),
+            "data": self.data,
+            "inline_q1asm": {
+                "program": self.program,
+                "duration": self.duration,
+                "port": self.port,
+                "clock": self.clock,
+                "waveforms": self.waveforms,
+                "safe_labels": self.safe_labels,
+            },
+        }
+
+    def __setstate__(self, state: dict[str, dict]) -> None:
+        self.__init__(**state["inline_q1asm"])
+        self.data = state["data"]
+
     # TODO remove once UserDict is removed as superclass
     def __deepcopy__(self, memo: dict) -> InlineQ1ASM:
         """Make a deepcopy of this object."""
-- 
2.43.0


From c346bf2dbab57b7b4012fbacf107ab226a2e0f1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:03 +0000
Subject: [PATCH 40/89] fix: represent numpy scalars in YAML

---
 quantify_scheduler/yaml_utils.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/quantify_scheduler/yaml_utils.py b/quantify_scheduler/yaml_utils.py
index 55b8f96..82d7d41 100644
--- a/quantify_scheduler/yaml_utils.py
+++ b/quantify_scheduler/yaml_utils.py
@@ -28,6 +28,11 @@ def represent_enum(representer: ry.Representer, data: Enum) -> ry.ScalarNode:
     return repr_method(representer, data.value)
 
 
+def represent_numpy_scalar(representer: ry.Representer, data: np.generic) -> ry.ScalarNode:
+    """Represent a NumPy scalar as the equal Python scalar."""
+    return representer.represent_data(data.item())
+
+
 def represent_ndarray(representer: ry.Representer, data: np.ndarray) -> ry.MappingNode:
     """Represent a NumPy array as a mapping, including its type and shape."""
     node = representer.represent_mapping(
@@ -66,7 +71,8 @@ yaml = ry.YAML(typ="rt")
 
 # Support Enum and its subclasses
 yaml.representer.add_multi_representer(Enum, represent_enum)
-# Support NumPy arrays
+# Support NumPy scalars and arrays
+yaml.representer.add_multi_representer(np.generic, represent_numpy_scalar)
 yaml.representer.add_representer(np.ndarray, represent_ndarray)
 yaml.constructor.add_constructor("!numpy.ndarray", construct_ndarray)
 
-- 
2.43.0


From d1f7bf87708e7c718b3f9cf80bd9658f0cd86487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:03 +0000
Subject: [PATCH 41/89] fix: distinguish -1 from -2 in operation hashes

---
 quantify_scheduler/helpers/collections.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/quantify_scheduler/helpers/collections.py b/quantify_scheduler/helpers/collections.py
index 9e48ca7..17f5833 100644
--- a/quantify_scheduler/helpers/collections.py
+++ b/quantify_scheduler/helpers/collections.py
@@ -6,6 +6,7 @@ from __future__ import annotations
 
 from collections import UserDict
 from collections.abc import Iterable, MutableMapping
+from numbers import Number
 from typing import TYPE_CHECKING
 
 import numpy as np
@@ -32,21 +33,22 @@ def make_hash(obj: set | tuple | list | np.ndarray | dict | Hashable) -> int:
         Hash.
 
     """
-    new_hash = xxhash.xxh64()
     if isinstance(obj, (set, tuple, list)):
         return hash(tuple(make_hash(e) for e in obj))
 
     if isinstance(obj, np.ndarray):
-        # numpy arrays behave funny for hashing
-        new_hash.update(obj)  # type: ignore
-        val = new_hash.intdigest()
-        new_hash.reset()
-        return val
+        # numpy arrays behave funny for hashing: equal values must give equal hashes,
+        # irrespective of the data type and memory layout of the array.
+        return make_hash(obj.tolist())
 
     if isinstance(obj, dict):
         tuple_of_hashes = ((key, make_hash(val)) for key, val in obj.items())
         return hash(frozenset(sorted(tuple_of_hashes)))
 
+    if isinstance(obj, (Number, np.bool_)):
+        # Python's hash(-1) equals hash(-2), which would make different operations equal.
+        return xxhash.xxh64_intdigest(str(complex(obj) + 0).encode())
+
     return hash(obj)
 
 
-- 
2.43.0


From 59c29c4e7e4509305543d5cc1ee82f526798a161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:16 +0000
Subject: [PATCH 42/89] fix: ScheduleGettable.compile() uses the current
 schedule arguments

compile() used the arguments evaluated by the last initialize(), so it
failed on a new gettable and ignored changed arguments and parameters.
---
 quantify_scheduler/gettables.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/quantify_scheduler/gettables.py b/quantify_scheduler/gettables.py
index 1b3a324..535f35f 100644
--- a/quantify_scheduler/gettables.py
+++ b/quantify_scheduler/gettables.py
@@ -163,6 +163,8 @@ class ScheduleGettable:
             The compiled schedule.
 
         """
+        # generate a schedule using the evaluated keyword arguments dict
+        self._evaluated_sched_kwargs = _evaluate_parameter_dict(self.schedule_kwargs)
         schedule = self.schedule_function(
             **self._evaluated_sched_kwargs,
             repetitions=self.quantum_device.cfg_sched_repetitions(),
@@ -183,9 +185,6 @@ class ScheduleGettable:
         hardware using the instrument coordinator.
         """
         logger.debug("Initializing schedule gettable.")
-        self._evaluated_sched_kwargs = _evaluate_parameter_dict(self.schedule_kwargs)
-
-        # generate a schedule using the evaluated keyword arguments dict
         self.compile()
 
         instr_coordinator = self.quantum_device.instr_instrument_coordinator.get_instr()
-- 
2.43.0


From 0b1a11f2198357c86124936a6f2132cb95cef0f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:43 +0000
Subject: [PATCH 43/89] fix: a failed initialize() leaves a ScheduleGettable
 uninitialized

With always_initialize=False the next get() would otherwise run whatever
the instruments held, or fail for lack of a compiled schedule.
---
 quantify_scheduler/gettables.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/quantify_scheduler/gettables.py b/quantify_scheduler/gettables.py
index 535f35f..6d2b5b9 100644
--- a/quantify_scheduler/gettables.py
+++ b/quantify_scheduler/gettables.py
@@ -185,6 +185,7 @@ class ScheduleGettable:
         hardware using the instrument coordinator.
         """
         logger.debug("Initializing schedule gettable.")
+        self.is_initialized = False
         self.compile()
 
         instr_coordinator = self.quantum_device.instr_instrument_coordinator.get_instr()
-- 
2.43.0


From aac158c7fba3e30b2dc0ec0133dc0819cab25dc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:43 +0000
Subject: [PATCH 44/89] fix: diagnostics report of a gettable that returns an
 xarray dataset

---
 quantify_scheduler/helpers/diagnostics_report.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/quantify_scheduler/helpers/diagnostics_report.py b/quantify_scheduler/helpers/diagnostics_report.py
index dc0d16c..fa804d6 100644
--- a/quantify_scheduler/helpers/diagnostics_report.py
+++ b/quantify_scheduler/helpers/diagnostics_report.py
@@ -19,6 +19,7 @@ from uuid import uuid4
 import numpy as np
 from packaging.requirements import Requirement
 from qcodes.utils.json_utils import NumpyJSONEncoder
+from xarray import Dataset
 
 from quantify_core._version import __version__ as __core_version__
 from quantify_core.data.handling import get_datadir, snapshot
@@ -41,7 +42,7 @@ def _generate_diagnostics_report(  # noqa: PLR0915
     instrument_coordinator: InstrumentCoordinator,
     initialized: bool,
     compiled_schedule: CompiledSchedule | None,
-    acquisition_data: tuple[np.ndarray, ...] | None,
+    acquisition_data: tuple[np.ndarray, ...] | Dataset | None,
     experiment_exception: (
         tuple[type[BaseException], BaseException, TracebackType] | tuple[None, None, None] | None
     ),
@@ -152,6 +153,10 @@ def _generate_diagnostics_report(  # noqa: PLR0915
 
             if acquisition_data is not None:
                 data_str = ""
+                if isinstance(acquisition_data, Dataset):
+                    acquisition_data = tuple(
+                        data_array.to_numpy() for data_array in acquisition_data.values()
+                    )
                 for line in acquisition_data:
                     data_str += f"{np.array2string(line)},\n"
                 data_str.rstrip(",\n")
-- 
2.43.0


From be5a208dc2c23d8d1433e1ab4812a329bee1da5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:03 +0000
Subject: [PATCH 45/89] fix: KeyError from InstrumentCoordinator.get_component
 for any unknown name

---
 .../instrument_coordinator/instrument_coordinator.py            | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantify_scheduler/instrument_coordinator/instrument_coordinator.py b/quantify_scheduler/instrument_coordinator/instrument_coordinator.py
index 792dc48..aa79d87 100644
--- a/quantify_scheduler/instrument_coordinator/instrument_coordinator.py
+++ b/quantify_scheduler/instrument_coordinator/instrument_coordinator.py
@@ -161,7 +161,7 @@ class InstrumentCoordinator(qcodes_base.Instrument):
             # derivative of InstrumentCoordinatorComponentBase.
             return self.find_instrument(full_name)  # type: ignore
         raise KeyError(
-            f"'{full_name.split('ic_')[1]}' appears in the hardware config,"
+            f"'{full_name.removeprefix('ic_')}' appears in the hardware config,"
             f" but was not added as a component to InstrumentCoordinator '{self.name}'."
         )
 
-- 
2.43.0


From aec762d450216a598edbff2a42cdbcac251f7d3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:03 +0000
Subject: [PATCH 46/89] fix: InstrumentCoordinator.prepare keeps the prepared
 schedule when it refuses one

---
 .../instrument_coordinator/instrument_coordinator.py          | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/quantify_scheduler/instrument_coordinator/instrument_coordinator.py b/quantify_scheduler/instrument_coordinator/instrument_coordinator.py
index aa79d87..ced07dd 100644
--- a/quantify_scheduler/instrument_coordinator/instrument_coordinator.py
+++ b/quantify_scheduler/instrument_coordinator/instrument_coordinator.py
@@ -235,9 +235,9 @@ class InstrumentCoordinator(qcodes_base.Instrument):
             If the schedule provided is not a valid :class:`.CompiledSchedule`.
 
         """
+        if not CompiledSchedule.is_valid(compiled_schedule):
+            raise TypeError(f"{compiled_schedule} is not a valid {CompiledSchedule.__name__}")
         self._compiled_schedule = compiled_schedule
-        if not CompiledSchedule.is_valid(self._compiled_schedule):
-            raise TypeError(f"{self._compiled_schedule} is not a valid {CompiledSchedule.__name__}")
 
         # Adds a reference to the last prepared schedule this can be accessed through
         # the self.last_schedule property.
-- 
2.43.0


From b0c93b308ebd94ab2632448da98b64f8de1507d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:03 +0000
Subject: [PATCH 47/89] fix: set the configured attenuations of QRC modules

---
 .../instrument_coordinator/components/qblox.py               | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/quantify_scheduler/instrument_coordinator/components/qblox.py b/quantify_scheduler/instrument_coordinator/components/qblox.py
index 7746208..5b7b937 100644
--- a/quantify_scheduler/instrument_coordinator/components/qblox.py
+++ b/quantify_scheduler/instrument_coordinator/components/qblox.py
@@ -1373,8 +1373,11 @@ class _QRCComponent(_RFComponent, _AnalogReadoutComponent):
         # configure attenuation
 
         for i in range(6):
-            if out_att := getattr(settings, f"out{i}_att") is not None:
+            if (out_att := getattr(settings, f"out{i}_att")) is not None:
                 self._set_parameter(self.instrument, f"out{i}_att", out_att)
+        for i in range(2):
+            if (in_att := getattr(settings, f"in{i}_att")) is not None:
+                self._set_parameter(self.instrument, f"in{i}_att", in_att)
 
     def _configure_lo_settings(
         self,
-- 
2.43.0


From 8d45cc6f4562960527df17400f53e6533005a8c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:37 +0000
Subject: [PATCH 48/89] fix: attenuations of every output and input of RF
 modules

output_att of complex_output_2..5 and input_att of complex_input_1 or
complex_output_1 (QRC) were ignored, and an attenuation was dropped when
another clock without one used the same output.
---
 quantify_scheduler/backends/qblox/analog.py | 55 ++++++++++++---------
 1 file changed, 31 insertions(+), 24 deletions(-)

diff --git a/quantify_scheduler/backends/qblox/analog.py b/quantify_scheduler/backends/qblox/analog.py
index d828180..eed742a 100644
--- a/quantify_scheduler/backends/qblox/analog.py
+++ b/quantify_scheduler/backends/qblox/analog.py
@@ -1249,7 +1249,8 @@ class RFModuleCompiler(AnalogModuleCompiler, ABC):
                 raise ValueError(f'Trying to set "{label}" to non-integer value {value}')
             return int(value)
 
-        in0_att = out0_att = out1_att = None
+        in_att: dict[int, InputAttenuation] = {}
+        out_att: dict[int, OutputAttenuation] = {}
 
         input_att_cfg = self.instrument_cfg.hardware_options.input_att
 
@@ -1259,34 +1260,40 @@ class RFModuleCompiler(AnalogModuleCompiler, ABC):
             portclock,
             path,
         ) in self.instrument_cfg.portclock_to_path.items():
-            if path.channel_name == "complex_input_0" and input_att_cfg is not None:
-                in0_att = input_att_cfg.get(portclock)
+            for i in range(2):
+                if (
+                    path.channel_name == f"complex_input_{i}"
+                    and input_att_cfg is not None
+                    and portclock in input_att_cfg
+                ):
+                    in_att[i] = input_att_cfg[portclock]
 
         for (
             portclock,
             path,
         ) in self.instrument_cfg.portclock_to_path.items():
-            if path.channel_name == "complex_output_0":
-                if input_att_cfg is not None:
-                    in0_att_from_output = input_att_cfg.get(portclock)
-                    if in0_att_from_output is not None:
-                        if in0_att is not None:
-                            raise ValueError(
-                                f"'input_att' is defined for both 'complex_input_0' and "
-                                f"'complex_output_0' on module '{self.name}', which is prohibited. "
-                                f"Make sure you define it at a single place."
-                            )
-                        in0_att = in0_att_from_output
-
-                if output_att_cfg is not None:
-                    out0_att = output_att_cfg.get(portclock)
-
-            if path.channel_name == "complex_output_1" and output_att_cfg is not None:
-                out1_att = output_att_cfg.get(portclock)
-
-        self._settings.in0_att = _convert_to_int(in0_att, label="in0_att")
-        self._settings.out0_att = _convert_to_int(out0_att, label="out0_att")
-        self._settings.out1_att = _convert_to_int(out1_att, label="out1_att")
+            for i in range(6):
+                if path.channel_name != f"complex_output_{i}":
+                    continue
+                if input_att_cfg is not None and portclock in input_att_cfg:
+                    if i in in_att:
+                        raise ValueError(
+                            f"'input_att' is defined for both 'complex_input_{i}' and "
+                            f"'complex_output_{i}' on module '{self.name}', which is prohibited. "
+                            f"Make sure you define it at a single place."
+                        )
+                    if i < 2:
+                        in_att[i] = input_att_cfg[portclock]
+
+                if output_att_cfg is not None and portclock in output_att_cfg:
+                    out_att[i] = output_att_cfg[portclock]
+
+        for i in range(2):
+            label = f"in{i}_att"
+            setattr(self._settings, label, _convert_to_int(in_att.get(i), label=label))
+        for i in range(6):
+            label = f"out{i}_att"
+            setattr(self._settings, label, _convert_to_int(out_att.get(i), label=label))
 
     def _configure_dc_latency_comp_for_marker(self, output: int, dc_comp: int) -> None:
         output += 2  # In RF modules, the two marker indices are 2 & 3.
-- 
2.43.0


From 9d3e3fc593ba727d1be17edc53034ce902834503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:37 +0000
Subject: [PATCH 49/89] fix: ClusterComponent.prepare disables sync on modules
 without a program

Sequencers of an earlier program stayed in the synchronization group.
---
 .../instrument_coordinator/components/qblox.py               | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/quantify_scheduler/instrument_coordinator/components/qblox.py b/quantify_scheduler/instrument_coordinator/components/qblox.py
index 5b7b937..c6b7aa3 100644
--- a/quantify_scheduler/instrument_coordinator/components/qblox.py
+++ b/quantify_scheduler/instrument_coordinator/components/qblox.py
@@ -2940,6 +2940,11 @@ class ClusterComponent(base.InstrumentCoordinatorComponentBase):
             # but we intend to change that in the future, so we can safely ignore the
             # warning of reportCallIssue.
             self._cluster_modules[name].prepare(comp_options, acq_channels_data, repetitions)  # pyright: ignore[reportCallIssue]
+        for name, comp in self._cluster_modules.items():
+            if name not in self._program.module_programs:
+                # Modules that only took part in an earlier program would block the
+                # synchronization of the sequencers of this one.
+                comp.disable_sync()
 
     def retrieve_acquisition(self) -> Dataset | None:
         """
-- 
2.43.0


From 89568bedf186b60c05bfa6ebffc18fb7f7b39496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:37 +0000
Subject: [PATCH 50/89] fix: switch trigger generation off when a program does
 not use it

---
 .../components/qblox.py                       | 21 +++++++++----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/quantify_scheduler/instrument_coordinator/components/qblox.py b/quantify_scheduler/instrument_coordinator/components/qblox.py
index c6b7aa3..82febea 100644
--- a/quantify_scheduler/instrument_coordinator/components/qblox.py
+++ b/quantify_scheduler/instrument_coordinator/components/qblox.py
@@ -900,12 +900,12 @@ class _AnalogReadoutComponent(_AnalogModuleComponent):
                 "thresholded_acq_trigger_address",
                 settings.thresholded_acq_trigger_write_address,
             )
+        self._set_parameter(
+            self.instrument.sequencers[seq_idx],
+            "thresholded_acq_trigger_en",
+            bool(settings.thresholded_acq_trigger_write_en),
+        )
         if settings.thresholded_acq_trigger_write_en is not None:
-            self._set_parameter(
-                self.instrument.sequencers[seq_idx],
-                "thresholded_acq_trigger_en",
-                settings.thresholded_acq_trigger_write_en,
-            )
             self._set_parameter(
                 self.instrument.sequencers[seq_idx],
                 "thresholded_acq_trigger_invert",
@@ -1631,12 +1631,11 @@ class _QTMComponent(_ModuleComponentBase):
             "thresholded_acq_trigger_address_invalid",
             settings.thresholded_acq_trigger_write_address_invalid,
         )
-        if settings.thresholded_acq_trigger_write_en is not None:
-            self._set_parameter(
-                self.instrument.io_channels[seq_idx],
-                "thresholded_acq_trigger_en",
-                settings.thresholded_acq_trigger_write_en,
-            )
+        self._set_parameter(
+            self.instrument.io_channels[seq_idx],
+            "thresholded_acq_trigger_en",
+            bool(settings.thresholded_acq_trigger_write_en),
+        )
 
     def clear_data(self) -> None:
         """Clears remaining data on the module. Module type specific function."""
-- 
2.43.0


From 0bac86353d05b01c9632d7bfed2c87185519174f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:37 +0000
Subject: [PATCH 51/89] fix: prepare QTM modules from a deserialized compiled
 schedule

---
 .../instrument_coordinator/components/qblox.py               | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/quantify_scheduler/instrument_coordinator/components/qblox.py b/quantify_scheduler/instrument_coordinator/components/qblox.py
index 82febea..dad0de0 100644
--- a/quantify_scheduler/instrument_coordinator/components/qblox.py
+++ b/quantify_scheduler/instrument_coordinator/components/qblox.py
@@ -1485,6 +1485,9 @@ class _QTMComponent(_ModuleComponentBase):
                     f'with name "{seq_name}".'
                 )
 
+            if isinstance(settings, dict):
+                settings = TimetagSequencerSettings.from_dict(settings)  # noqa: PLW2901
+
             # 1-1 Sequencer-io_channel coupling,
             # the io_channel settings are inside SequencerSettings
             self._configure_sequencer_settings(seq_idx=seq_idx, settings=settings)
@@ -1505,6 +1508,8 @@ class _QTMComponent(_ModuleComponentBase):
             self._acquisition_manager = None
 
         if (settings := program.get("settings")) is not None:
+            if isinstance(settings, dict):
+                settings = self._hardware_properties.settings_type.from_dict(settings)
             assert isinstance(settings, TimetagModuleSettings)
             self._configure_global_settings(settings)
 
-- 
2.43.0


From 5ab442accae5d89ea5d025fc2c841d9dd9e2d518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:03 +0000
Subject: [PATCH 52/89] fix: refuse integration lengths that are not a multiple
 of 4 ns

---
 quantify_scheduler/backends/qblox/analog.py    | 9 +++++++--
 quantify_scheduler/backends/qblox/constants.py | 2 ++
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/quantify_scheduler/backends/qblox/analog.py b/quantify_scheduler/backends/qblox/analog.py
index eed742a..15ec79d 100644
--- a/quantify_scheduler/backends/qblox/analog.py
+++ b/quantify_scheduler/backends/qblox/analog.py
@@ -403,11 +403,16 @@ class AnalogSequencerCompiler(SequencerCompiler):
                 continue
 
             acq_duration_ns = round(op_strat.operation_info.duration * 1e9)
-            if acq_duration_ns % constants.GRID_TIME != 0:
+            # Weights and scope traces do not use the integration length of the hardware.
+            if (
+                isinstance(op_strat, SquareAcquisitionStrategy)
+                and op_strat.operation_info.data["protocol"] != "Trace"
+                and acq_duration_ns % constants.GRID_TIME_INTEGRATION_LENGTH_ACQ != 0
+            ):
                 raise ValueError(
                     "Attempting to perform square acquisition with a duration of "
                     f"{acq_duration_ns} ns. Please ensure the duration is a multiple "
-                    f"of {constants.GRID_TIME} ns.\n\nException caused by "
+                    f"of {constants.GRID_TIME_INTEGRATION_LENGTH_ACQ} ns.\n\nException caused by "
                     f"{op_strat!r}."
                 )
             if not (
diff --git a/quantify_scheduler/backends/qblox/constants.py b/quantify_scheduler/backends/qblox/constants.py
index b5b158e..337cc5a 100644
--- a/quantify_scheduler/backends/qblox/constants.py
+++ b/quantify_scheduler/backends/qblox/constants.py
@@ -83,6 +83,8 @@ MAX_SAMPLE_SIZE_WAVEFORMS: int = 16384
 """Maximal amount of samples in the waveforms to be uploaded to a sequencer."""
 MAX_NUMBER_OF_WAVEFORMS: int = 1024
 """Maximal number of waveforms that can be addressed by a sequencer."""
+GRID_TIME_INTEGRATION_LENGTH_ACQ: int = 4
+"""The integration length of unweighted acquisitions is a multiple of this value in ns."""
 MIN_INTEGRATION_LENGTH_ACQ: int = 4
 """Minimum value of the sequencer integration length in ns."""
 MAX_INTEGRATION_LENGTH_ACQ: int = 16777212
-- 
2.43.0


From 7cf1043ea136ed6147599bef65885528fce1a5ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:23 +0000
Subject: [PATCH 53/89] fix: refuse more acquisition weights than a sequencer
 can address

---
 quantify_scheduler/backends/qblox/compiler_abc.py | 6 ++++++
 quantify_scheduler/backends/qblox/constants.py    | 2 ++
 2 files changed, 8 insertions(+)

diff --git a/quantify_scheduler/backends/qblox/compiler_abc.py b/quantify_scheduler/backends/qblox/compiler_abc.py
index c7efa43..0e18a2e 100644
--- a/quantify_scheduler/backends/qblox/compiler_abc.py
+++ b/quantify_scheduler/backends/qblox/compiler_abc.py
@@ -446,6 +446,12 @@ class SequencerCompiler(ABC):
         for op_strategy in self.op_strategies:
             if op_strategy.operation_info.is_acquisition:
                 op_strategy.generate_data(wf_dict)
+        if len(wf_dict) > constants.MAX_NUMBER_OF_WEIGHTS:
+            raise RuntimeError(
+                f"The number of different acquisition weights for port-clock {self.port}-"
+                f"{self.clock} exceeds the limit of {constants.MAX_NUMBER_OF_WEIGHTS}. "
+                f"The compiled schedule cannot be uploaded to the sequencer.",
+            )
         return wf_dict
 
     def _validate_awg_dict(self, wf_dict: dict[str, Any]) -> None:
diff --git a/quantify_scheduler/backends/qblox/constants.py b/quantify_scheduler/backends/qblox/constants.py
index 337cc5a..865bf73 100644
--- a/quantify_scheduler/backends/qblox/constants.py
+++ b/quantify_scheduler/backends/qblox/constants.py
@@ -83,6 +83,8 @@ MAX_SAMPLE_SIZE_WAVEFORMS: int = 16384
 """Maximal amount of samples in the waveforms to be uploaded to a sequencer."""
 MAX_NUMBER_OF_WAVEFORMS: int = 1024
 """Maximal number of waveforms that can be addressed by a sequencer."""
+MAX_NUMBER_OF_WEIGHTS: int = 64
+"""Maximal number of acquisition weights that can be addressed by a sequencer."""
 GRID_TIME_INTEGRATION_LENGTH_ACQ: int = 4
 """The integration length of unweighted acquisitions is a multiple of this value in ns."""
 MIN_INTEGRATION_LENGTH_ACQ: int = 4
-- 
2.43.0


From 0022a82479d78edf8861365143dc9a758772b16a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:23 +0000
Subject: [PATCH 54/89] fix: retrieve traces of the second QRC input pair for a
 deserialized compiled schedule

---
 .../instrument_coordinator/components/qblox.py              | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/quantify_scheduler/instrument_coordinator/components/qblox.py b/quantify_scheduler/instrument_coordinator/components/qblox.py
index dad0de0..2002dd3 100644
--- a/quantify_scheduler/instrument_coordinator/components/qblox.py
+++ b/quantify_scheduler/instrument_coordinator/components/qblox.py
@@ -775,6 +775,7 @@ class _AnalogReadoutComponent(_AnalogModuleComponent):
             self._set_parameter(self.instrument.sequencers[seq_idx], "sync_en", False)
 
         acq_duration = {}
+        all_sequencer_settings = {}
         for seq_name, settings in program["sequencers"].items():
             if isinstance(settings, dict):
                 sequencer_settings = AnalogSequencerSettings.from_dict(settings)
@@ -790,6 +791,7 @@ class _AnalogReadoutComponent(_AnalogModuleComponent):
 
             self._configure_sequencer_settings(seq_idx=seq_idx, settings=sequencer_settings)
             acq_duration[seq_name] = sequencer_settings.integration_length_acq
+            all_sequencer_settings[seq_name] = sequencer_settings
 
         if (acq_hardware_mapping := program.get("acq_hardware_mapping")) is not None:
             scope_mode_sequencer_and_qblox_acq_index = (
@@ -804,7 +806,7 @@ class _AnalogReadoutComponent(_AnalogModuleComponent):
                 scope_mode_sequencer_and_qblox_acq_index=scope_mode_sequencer_and_qblox_acq_index,
                 acquisition_duration=acq_duration,
                 seq_name_to_idx_map=self._seq_name_to_idx_map,
-                sequencers=program.get("sequencers"),
+                sequencers=all_sequencer_settings,
                 repetitions=repetitions,
             )
         else:
@@ -2137,7 +2139,7 @@ class _QRMAcquisitionManager(_AcquisitionManagerBase):
         seq_name_to_idx_map: dict[str, int],
         repetitions: int,
         scope_mode_sequencer_and_qblox_acq_index: tuple[int, int] | None = None,
-        sequencers: dict[str, dict] | None = None,
+        sequencers: dict[str, AnalogSequencerSettings] | None = None,
     ) -> None:
         super().__init__(
             parent=parent,
-- 
2.43.0


From 168780b0d181ff867d4c86021fd33b7bf084b591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:24 +0000
Subject: [PATCH 55/89] fix: accept negative immediate arguments in inline
 Q1ASM and refuse joined arguments

---
 quantify_scheduler/backends/qblox/qasm_program.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/quantify_scheduler/backends/qblox/qasm_program.py b/quantify_scheduler/backends/qblox/qasm_program.py
index 18d8ff2..d2b5e47 100644
--- a/quantify_scheduler/backends/qblox/qasm_program.py
+++ b/quantify_scheduler/backends/qblox/qasm_program.py
@@ -702,14 +702,14 @@ class QASMProgram:
         # [label:] instruction argument,argument,... [comment]
         # Everything is optional.
         # Arguments are only allowed if an instruction is given
-        # Arguments can either be numbers, registers, or label references.
+        # Arguments can either be (signed) numbers, registers, or label references.
         # We set up the regex to parse it.
         alpha_num_regex = "[a-zA-Z0-9_]"
         white_space = "[ \t]+"  # Space and tabs
         # label has to start with a letter or underscore
         label_regex = f"[a-zA-Z_]{alpha_num_regex}*"
-        argument_regex = f"(R?[0-9]+|(@{label_regex}))"
-        argument_list_regex = f"{white_space}({argument_regex}+,({white_space})?)*{argument_regex}"
+        argument_regex = f"(R[0-9]+|-?[0-9]+|(@{label_regex}))"
+        argument_list_regex = f"{white_space}({argument_regex},({white_space})?)*{argument_regex}"
         instruction_regex = "[a-z_]+"  # All instructions are snake_case
         comment_regex = "#(?P<comment>.*)"
         line_regex = (
-- 
2.43.0


From 2b15a8e2a463254a861c3c615dc0d8a81605f203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:01 +0000
Subject: [PATCH 56/89] fix: count the instructions of inline Q1ASM in
 conditional playback

---
 .../q1asm_injection_strategy.py               |  3 +++
 .../backends/qblox/q1asm_instructions.py      |  9 +++++++
 .../backends/qblox/qasm_program.py            | 26 +++++++++++++++++++
 3 files changed, 38 insertions(+)

diff --git a/quantify_scheduler/backends/qblox/operation_handling/q1asm_injection_strategy.py b/quantify_scheduler/backends/qblox/operation_handling/q1asm_injection_strategy.py
index 4651d9a..9e74fec 100644
--- a/quantify_scheduler/backends/qblox/operation_handling/q1asm_injection_strategy.py
+++ b/quantify_scheduler/backends/qblox/operation_handling/q1asm_injection_strategy.py
@@ -72,6 +72,7 @@ class Q1ASMInjectionStrategy(IOperationStrategy):
         program_lines = self.operation_info.data["program"].splitlines()
 
         register_mapping = {}
+        instructions = []
         label_prefix = f"inj{len(qasm_program.instructions)}_" if safe_labels else ""
         for line in program_lines:
             instruction, arguments, label, comment = QASMProgram.parse_program_line(line)
@@ -92,10 +93,12 @@ class Q1ASMInjectionStrategy(IOperationStrategy):
                 elif argument[0] == "@":
                     arguments[i] = f"@{label_prefix}{argument[1:]}"
 
+            instructions.append(instruction)
             qasm_program.emit(instruction, *arguments, label=label, comment="[inline] " + comment)
 
         # Free the registers
         for register in reversed(register_mapping.values()):
             qasm_program.register_manager.free_register(register)
 
+        qasm_program.count_inline_instructions(instructions)
         qasm_program.elapsed_time += round(self.operation_info.data["duration"] * 1e9)
diff --git a/quantify_scheduler/backends/qblox/q1asm_instructions.py b/quantify_scheduler/backends/qblox/q1asm_instructions.py
index f9ddb6b..20a1eb0 100644
--- a/quantify_scheduler/backends/qblox/q1asm_instructions.py
+++ b/quantify_scheduler/backends/qblox/q1asm_instructions.py
@@ -79,3 +79,12 @@ EXTENDABLE_INSTRUCTIONS = (
     UPD_THRES,
 )
 """Real-time instructions of which the last argument is a duration that can be longer."""
+REAL_TIME_INSTRUCTIONS = (
+    *EXTENDABLE_INSTRUCTIONS,
+    WAIT_SYNC,
+    WAIT_TRIGGER,
+    FEEDBACK_TRIGGER_EN,
+    PLAY_PULSE,
+    ACQUIRE_DIGITAL,
+)
+"""Instructions that take time, also when they are skipped by a condition."""
diff --git a/quantify_scheduler/backends/qblox/qasm_program.py b/quantify_scheduler/backends/qblox/qasm_program.py
index d2b5e47..7e51830 100644
--- a/quantify_scheduler/backends/qblox/qasm_program.py
+++ b/quantify_scheduler/backends/qblox/qasm_program.py
@@ -563,6 +563,32 @@ class QASMProgram:
         self.conditional_manager.reset()
         self._lock_conditional = False
 
+    def count_inline_instructions(self, instructions: list[str]) -> None:
+        """
+        Count the real-time instructions of an inline program if it is conditional.
+
+        Parameters
+        ----------
+        instructions
+            The names of the instructions in the inline program.
+
+        Raises
+        ------
+        RuntimeError
+            If an inline program in a conditional contains both real-time and control
+            flow instructions. The duration of the alternative cannot be determined then.
+
+        """
+        number = sum(name in q1asm_instructions.REAL_TIME_INSTRUCTIONS for name in instructions)
+        if not self._lock_conditional or number == 0:
+            return
+        if any(name in q1asm_instructions.CONTROL_FLOW_INSTRUCTIONS for name in instructions):
+            raise RuntimeError(
+                "Inline Q1ASM with loops, jumps or other control flow instructions is not "
+                "supported inside conditional playback by the Qblox backend."
+            )
+        self.conditional_manager.num_real_time_instructions += number
+
     @contextmanager
     def loop(self, label: str, repetitions: int = 1) -> Generator[str, None, None]:
         """
-- 
2.43.0


From 3854a4cdf460618fcd58fe13f603e68bbf0d9c8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:28 +0000
Subject: [PATCH 57/89] fix: software distortion corrections keep timing,
 duration, acquisitions and complex parts

---
 quantify_scheduler/backends/corrections.py | 82 +++++++++++++++++-----
 1 file changed, 65 insertions(+), 17 deletions(-)

diff --git a/quantify_scheduler/backends/corrections.py b/quantify_scheduler/backends/corrections.py
index 533b6cd..c52a6eb 100644
--- a/quantify_scheduler/backends/corrections.py
+++ b/quantify_scheduler/backends/corrections.py
@@ -6,6 +6,7 @@ from __future__ import annotations
 
 import logging
 import warnings
+from copy import copy
 from typing import TYPE_CHECKING, Any, overload
 
 import numpy as np
@@ -133,24 +134,31 @@ def distortion_correct_pulse(
         distortion_correction.clipping_values is not None
         and len(distortion_correction.clipping_values) == 2
     ):
-        corrected_waveform_data = np.clip(
-            corrected_waveform_data,
-            distortion_correction.clipping_values[0],
-            distortion_correction.clipping_values[1],
-        )
+        lower, upper = distortion_correction.clipping_values
+        if np.iscomplexobj(corrected_waveform_data):
+            corrected_waveform_data = np.clip(
+                corrected_waveform_data.real, lower, upper
+            ) + 1j * np.clip(corrected_waveform_data.imag, lower, upper)
+        else:
+            corrected_waveform_data = np.clip(corrected_waveform_data, lower, upper)
+
+    # Every sample is played at the time at which it was sampled.
+    sample_time = 1 / distortion_correction.sampling_rate
+    if corrected_waveform_data.size != waveform_data.size:
+        sample_time = pulse_data["duration"] / corrected_waveform_data.size
 
     if corrected_waveform_data.size == 1:  # Interpolation requires two sample points
         corrected_waveform_data = np.append(corrected_waveform_data, corrected_waveform_data[-1])
 
     corrected_pulse = NumericalPulse(
         samples=corrected_waveform_data,
-        t_samples=np.linspace(
-            start=0, stop=pulse_data["duration"], num=corrected_waveform_data.size
-        ),
+        t_samples=np.arange(corrected_waveform_data.size) * sample_time,
         port=pulse_data["port"],
         clock=pulse_data["clock"],
         t0=pulse_data["t0"],
     )
+    corrected_pulse.data["pulse_info"][0]["duration"] = pulse_data["duration"]
+    corrected_pulse._update()
 
     return corrected_pulse
 
@@ -195,7 +203,7 @@ def apply_software_distortion_corrections(
 
     For pulses in need of correcting (indicated by their port-clock combination) we are
     **only** replacing the dict in ``"pulse_info"`` associated to that specific
-    pulse. This means that we can have a combination of corrected (i.e., pre-sampled)
+    pulse, in a copy of the operation. This means that we can have a combination of corrected (i.e., pre-sampled)
     and uncorrected pulses in the same operation.
 
     Note that we are **not** updating the ``"operation_id"`` key, used to reference
@@ -230,26 +238,62 @@ def apply_software_distortion_corrections(
         when clipping values are supplied but not two values exactly, min and max.
 
     """
+    return _apply_software_distortion_corrections(operation, distortion_corrections, {})
+
+
+def _apply_software_distortion_corrections(
+    operation: Operation | Schedule,
+    distortion_corrections: dict,
+    processed: dict[int, tuple[Operation | Schedule, Operation | None]],
+) -> Operation | None:
+    """
+    Apply distortion corrections, once to every operation.
+
+    The same operation can occur several times in (sub-)schedules and control flow
+    operations. ``processed`` contains the operations that were already corrected and
+    their replacements.
+    """
+    if id(operation) not in processed:
+        processed[id(operation)] = (
+            operation,
+            _get_distortion_corrected_operation(operation, distortion_corrections, processed),
+        )
+    return processed[id(operation)][1]
+
+
+def _get_distortion_corrected_operation(
+    operation: Operation | Schedule,
+    distortion_corrections: dict,
+    processed: dict[int, tuple[Operation | Schedule, Operation | None]],
+) -> Operation | None:
+    """Correct the operations in a container, or return the replacement of a single operation."""
     if isinstance(operation, ScheduleBase):
         for inner_operation_id in operation.operations:
-            replacing_operation = apply_software_distortion_corrections(
-                operation.operations[inner_operation_id], distortion_corrections
+            replacing_operation = _apply_software_distortion_corrections(
+                operation.operations[inner_operation_id], distortion_corrections, processed
             )
             if replacing_operation is not None:
                 operation.operations[inner_operation_id] = replacing_operation
         return None
     elif isinstance(operation, ControlFlowOperation):
-        replacing_operation = apply_software_distortion_corrections(
-            operation.body, distortion_corrections
+        replacing_operation = _apply_software_distortion_corrections(
+            operation.body, distortion_corrections, processed
         )
         if replacing_operation is not None:
             operation.body = replacing_operation
         return None
     else:
         substitute_operation = None
+        pulse_infos = list(operation.data["pulse_info"])
         for pulse_info_idx, pulse_data in enumerate(operation.data["pulse_info"]):
             portclock_key = f"{pulse_data['port']}-{pulse_data['clock']}"
 
+            if "wf_func" in pulse_data and pulse_data["wf_func"] is None and not (
+                operation.has_voltage_offset
+            ):
+                # Not a pulse that is played, e.g. a reset of the feedback trigger latch.
+                continue
+
             if portclock_key in distortion_corrections:
                 correction_cfg = distortion_corrections[portclock_key]
 
@@ -286,14 +330,18 @@ def apply_software_distortion_corrections(
                     ),
                 )
 
-                operation.data["pulse_info"][pulse_info_idx] = corrected_pulse.data["pulse_info"][0]
+                pulse_infos[pulse_info_idx] = corrected_pulse.data["pulse_info"][0]
 
+                # Convert to operation-type of first entry in pulse_info,
+                # required as first entry in pulse_info is used to generate signature in __str__
                 if pulse_info_idx == 0:
                     substitute_operation = corrected_pulse
+                elif substitute_operation is None:
+                    substitute_operation = copy(operation)
 
-        # Convert to operation-type of first entry in pulse_info,
-        # required as first entry in pulse_info is used to generate signature in __str__
         if substitute_operation is not None:
-            substitute_operation.data["pulse_info"] = operation.data["pulse_info"]
+            substitute_operation.data["pulse_info"] = pulse_infos
+            substitute_operation.data["acquisition_info"] = operation.data["acquisition_info"]
+            substitute_operation._update()
             return substitute_operation
         return None
-- 
2.43.0


From d7ef736f43d4db4ff387bf2a14525ed6ebee2c8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:28 +0000
Subject: [PATCH 58/89] fix: range check of FIR coefficients and corrections on
 the second complex output

---
 .../backends/qblox/instrument_compilers.py         | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/quantify_scheduler/backends/qblox/instrument_compilers.py b/quantify_scheduler/backends/qblox/instrument_compilers.py
index 51b2eac..069c583 100644
--- a/quantify_scheduler/backends/qblox/instrument_compilers.py
+++ b/quantify_scheduler/backends/qblox/instrument_compilers.py
@@ -213,7 +213,11 @@ class QCMCompiler(BasebandModuleCompiler):
                                 marker_debug_mode_enable,
                             )
                     if key == "fir_coeffs" and value is not None:
-                        if len(value) != 32 or np.any(value) < -2 or np.any(value) >= 2:
+                        if (
+                            len(value) != 32
+                            or np.any(np.asarray(value) < -2)
+                            or np.any(np.asarray(value) >= 2)
+                        ):
                             raise ValueError(
                                 "The FIR filter has 32 coefficients with a range of [-2,2) each."
                             )
@@ -238,15 +242,15 @@ class QCMCompiler(BasebandModuleCompiler):
                             if channel_description is not None
                             else False
                         )
+                        if isinstance(correction_cfg, list):
+                            output_number *= 2  # The first of the two outputs of the channel.
                         if module_distortion_configs.get(output_number) is None:
                             if isinstance(correction_cfg, HardwareDistortionCorrection):
-                                output_number = int(output_name.split("_")[-1])
                                 module_distortion_configs[output_number] = {
                                     "distortion_corrections": correction_cfg,
                                     "marker_debug_mode_enable": marker_debug_mode_enable,
                                 }
                             elif isinstance(correction_cfg, list):
-                                output_number = 2 * int(output_name.split("_")[-1])
                                 module_distortion_configs[output_number] = {
                                     "distortion_corrections": correction_cfg[0],
                                     "marker_debug_mode_enable": marker_debug_mode_enable,
@@ -258,8 +262,8 @@ class QCMCompiler(BasebandModuleCompiler):
                                 }
                         else:
                             raise ValueError(
-                                f"Attempting to set distortion corrections to"
-                                f"{output_name} using portclock {portclock}, while it"
+                                f"Attempting to set distortion corrections to "
+                                f"{output_name} using portclock {portclock}, while it "
                                 f"has previously already been set on this output."
                             )
         return module_distortion_configs
-- 
2.43.0


From 3954c350eed26d374e52488c0922a9abee5f5dc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:28 +0000
Subject: [PATCH 59/89] fix: number of samples of a waveform with a duration
 that is not representable

---
 quantify_scheduler/helpers/waveforms.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/quantify_scheduler/helpers/waveforms.py b/quantify_scheduler/helpers/waveforms.py
index 67a97c6..3bcdcd2 100644
--- a/quantify_scheduler/helpers/waveforms.py
+++ b/quantify_scheduler/helpers/waveforms.py
@@ -175,7 +175,9 @@ def get_waveform(
         The waveform.
 
     """
-    t: np.ndarray = np.arange(0, 0 + pulse_info["duration"], 1 / sampling_rate)
+    # Rounded, so that floating point errors do not lead to an additional sample.
+    num_samples = math.ceil(round(pulse_info["duration"] * sampling_rate, 6))
+    t: np.ndarray = np.arange(num_samples) / sampling_rate
     wf_func: str = pulse_info["wf_func"]
     waveform: np.ndarray = exec_waveform_function(wf_func, t, pulse_info)
 
-- 
2.43.0


From 766a027036115c14f1e8a8a5ff4db5bf94aca5d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:28 +0000
Subject: [PATCH 60/89] fix: trace duration and trigger settings when several
 protocols share a QTM input; fine delays within an acquisition

---
 quantify_scheduler/backends/qblox/timetag.py | 44 +++++++++++++++-----
 1 file changed, 33 insertions(+), 11 deletions(-)

diff --git a/quantify_scheduler/backends/qblox/timetag.py b/quantify_scheduler/backends/qblox/timetag.py
index 712cf4d..b7af607 100644
--- a/quantify_scheduler/backends/qblox/timetag.py
+++ b/quantify_scheduler/backends/qblox/timetag.py
@@ -187,10 +187,14 @@ class TimetagSequencerCompiler(SequencerCompiler):
                 # Round these to ns and _then_ convert to ps, because of the Q1 time grid.
                 operation_duration = round(op.operation_info.data["duration"] * 1e9) * 1000
                 operation_start_time = round(op.operation_info.timing * 1e9) * 1000
+                window_duration = operation_duration
+                if isinstance(op, TimetagAcquisitionStrategy):
+                    # The instruction that closes the window ends with the acquisition.
+                    window_duration -= constants.MIN_TIME_BETWEEN_OPERATIONS * 1000
 
                 if (
                     (fine_end_delay - fine_start_delay) % 1000 != 0
-                    and operation_duration + fine_end_delay - fine_start_delay
+                    and window_duration + fine_end_delay - fine_start_delay
                     < constants.MIN_FINE_DELAY_SPACING_NS * 1000
                 ):
                     raise FineDelayTimingError(
@@ -303,8 +307,11 @@ class TimetagSequencerCompiler(SequencerCompiler):
         if "Trace" in unique_protocols:
             self._settings.scope_trace_type = TimetagTraceType.SCOPE
             # Trace acquisitions have bin mode FIRST, meaning only the first acquisition
-            # has any effect. Therefore we take the duration from the first acquisition.
-            self._settings.trace_acq_duration = round(acquisitions[0].operation_info.duration * 1e9)
+            # has any effect. Therefore we take the duration from the first trace acquisition.
+            first_trace = next(
+                acq for acq in acquisitions if acq.operation_info.data["protocol"] == "Trace"
+            )
+            self._settings.trace_acq_duration = round(first_trace.operation_info.duration * 1e9)
         elif "TimetagTrace" in unique_protocols:
             self._settings.scope_trace_type = TimetagTraceType.TIMETAG
 
@@ -330,9 +337,21 @@ class TimetagSequencerCompiler(SequencerCompiler):
             )
 
         if "ThresholdedTriggerCount" in unique_protocols:
-            self._prepare_thresholded_trigger_count_settings(acquisitions)
+            self._prepare_thresholded_trigger_count_settings(
+                [
+                    acq
+                    for acq in acquisitions
+                    if acq.operation_info.data["protocol"] == "ThresholdedTriggerCount"
+                ]
+            )
         elif "DualThresholdedTriggerCount" in unique_protocols:
-            self._prepare_dual_thresholded_trigger_count_settings(acquisitions)
+            self._prepare_dual_thresholded_trigger_count_settings(
+                [
+                    acq
+                    for acq in acquisitions
+                    if acq.operation_info.data["protocol"] == "DualThresholdedTriggerCount"
+                ]
+            )
 
     def _prepare_thresholded_trigger_count_settings(
         self, acquisitions: list[IOperationStrategy]
@@ -354,13 +373,16 @@ class TimetagSequencerCompiler(SequencerCompiler):
         # We ignore None because it does not interfere with other acquisitions/conditionals.
         # This is because a LatchReset is used for every thresholded acq with a not-None
         # address.
+        addresses = {
+            acq.operation_info.data["feedback_trigger_address"]
+            for acq in acquisitions
+            if acq.operation_info.data.get("feedback_trigger_address") is not None
+        }
+        if len(addresses) == 0:
+            # No trigger is sent, the threshold is only used when retrieving the data.
+            return
         address = self._get_unique_value_or_raise(
-            values=(
-                acq.operation_info.data["feedback_trigger_address"]
-                for acq in acquisitions
-                if acq.operation_info.data["feedback_trigger_address"] is not None
-            ),
-            setting_name="feedback_trigger_address",
+            values=addresses, setting_name="feedback_trigger_address"
         )
         self._settings.thresholded_acq_trigger_write_en = True
         # For a ThresholdedTriggerCount with one threshold, both the low and high
-- 
2.43.0


From dda0bbd1869648aa686d106f6101e064431c5b7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:28 +0000
Subject: [PATCH 61/89] fix: skipped count and timetag acquisitions in
 conditionals take as long as executed ones

---
 .../backends/qblox/operation_handling/acquisitions.py     | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/quantify_scheduler/backends/qblox/operation_handling/acquisitions.py b/quantify_scheduler/backends/qblox/operation_handling/acquisitions.py
index e084bdf..f6770a2 100644
--- a/quantify_scheduler/backends/qblox/operation_handling/acquisitions.py
+++ b/quantify_scheduler/backends/qblox/operation_handling/acquisitions.py
@@ -381,6 +381,8 @@ class TriggerCountAcquisitionStrategy(AcquisitionStrategyPartial):
             f"bin_mode:{self.bin_mode}",
         )
         qasm_program.elapsed_time += constants.MIN_TIME_BETWEEN_OPERATIONS
+        # This acquisition consists of two real-time instructions.
+        qasm_program.conditional_manager.num_real_time_instructions += 1
 
     def _acquire_with_register_bin_index(self, qasm_program: QASMProgram) -> None:
         """
@@ -421,6 +423,8 @@ class TriggerCountAcquisitionStrategy(AcquisitionStrategyPartial):
             f"store in bin:{self.bin_idx_register}",
         )
         qasm_program.elapsed_time += constants.MIN_TIME_BETWEEN_OPERATIONS
+        # This acquisition consists of two real-time instructions.
+        qasm_program.conditional_manager.num_real_time_instructions += 1
 
         qasm_program.emit(
             q1asm_instructions.ADD,
@@ -489,6 +493,8 @@ class TimetagAcquisitionStrategy(AcquisitionStrategyPartial):
             f"bin_mode:{self.bin_mode}",
         )
         qasm_program.elapsed_time += constants.MIN_TIME_BETWEEN_OPERATIONS
+        # This acquisition consists of two real-time instructions.
+        qasm_program.conditional_manager.num_real_time_instructions += 1
 
     def _acquire_with_register_bin_index(self, qasm_program: QASMProgram) -> None:
         """
@@ -555,6 +561,8 @@ class TimetagAcquisitionStrategy(AcquisitionStrategyPartial):
             f"store in bin:{self.bin_idx_register}",
         )
         qasm_program.elapsed_time += constants.MIN_TIME_BETWEEN_OPERATIONS
+        # This acquisition consists of two real-time instructions.
+        qasm_program.conditional_manager.num_real_time_instructions += 1
         if fine_start_delay_reg == fine_end_delay_reg:
             qasm_program.register_manager.free_register(fine_start_delay_reg)
         else:
-- 
2.43.0


From c4d3303696ea58f0bb9000ed9aa94359a6187ad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:28 +0000
Subject: [PATCH 62/89] fix: retrieval of skipped trigger counts and of
 repeated timetag traces

---
 .../components/qblox.py                       | 25 +++++++++++++------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/quantify_scheduler/instrument_coordinator/components/qblox.py b/quantify_scheduler/instrument_coordinator/components/qblox.py
index 2002dd3..5911763 100644
--- a/quantify_scheduler/instrument_coordinator/components/qblox.py
+++ b/quantify_scheduler/instrument_coordinator/components/qblox.py
@@ -2010,6 +2010,9 @@ class _AcquisitionManagerBase(ABC):
                 # "avg_cnt" is the key for QRM modules, "count" for QTM modules. Note
                 # that QTM modules also return a "avg_cnt" key, that should not be used!
                 counts = bin_data["count"] if "count" in bin_data else bin_data["avg_cnt"]
+                if isnan(counts[qblox_acq_bin]):
+                    # The acquisition was not executed (because of conditional playback).
+                    return -1
                 return (
                     round(self._repetitions * counts[qblox_acq_bin])
                     if (
@@ -2645,16 +2648,24 @@ class _QTMAcquisitionManager(_AcquisitionManagerBase):
 
         qblox_acq_name = self._qblox_acq_index_to_qblox_acq_name(qblox_acq_index)
         scope_data = self.instrument.io_channels[seq_idx].get_scope_data()
+        timetags = hardware_retrieved_acquisitions[qblox_acq_name]["acquisition"]["bins"][
+            "timedelta"
+        ]
+        # The windows are recorded in the order in which they are executed: the acquisitions of
+        # the first repetition, then those of the second repetition, etc.
+        window_bins = [
+            qblox_acq_index_bin.bin + repetition * qblox_acq_index_bin.stride
+            for repetition in range(self._repetitions)
+            for qblox_acq_index_bin in seq_channel_hardware_mapping.values()
+        ]
         timetag_traces = self._split_timetag_trace_data_per_window(
-            timetags=hardware_retrieved_acquisitions[qblox_acq_name]["acquisition"]["bins"][
-                "timedelta"
-            ],
+            timetags=[timetags[bin_] for bin_ in window_bins],
             scope_data=scope_data,
         )
 
         # Turn the inhomogeneous 2D array into a rectangular matrix compatible with
         # xarray. Pad with NaN to make it rectangular.
-        max_timetag_traces = max(len(t) for t in timetag_traces)
+        max_timetag_traces = max((len(t) for t in timetag_traces), default=0)
         rect_array = np.empty(
             [
                 self._repetitions,
@@ -2666,11 +2677,9 @@ class _QTMAcquisitionManager(_AcquisitionManagerBase):
         rect_array[:] = np.nan
 
         for repetition in range(self._repetitions):
-            for i, (_acq_index, qblox_acq_index_bin) in enumerate(
-                seq_channel_hardware_mapping.items()
-            ):
+            for i in range(len(seq_channel_hardware_mapping)):
                 timetag_traces_bin = timetag_traces[
-                    qblox_acq_index_bin.bin + repetition * qblox_acq_index_bin.stride
+                    repetition * len(seq_channel_hardware_mapping) + i
                 ]
                 rect_array[repetition][i][0 : len(timetag_traces_bin)] = timetag_traces_bin
         acq_index_dim_name = self._acq_channels_data[acq_channel].acq_index_dim_name
-- 
2.43.0


From 9ec48595fd47edede7f06de3450a01e6e37d8c92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:28 +0000
Subject: [PATCH 63/89] fix: string representation of
 DualThresholdedTriggerCount

---
 quantify_scheduler/operations/acquisition_library.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantify_scheduler/operations/acquisition_library.py b/quantify_scheduler/operations/acquisition_library.py
index e2ef5bd..34b00f1 100644
--- a/quantify_scheduler/operations/acquisition_library.py
+++ b/quantify_scheduler/operations/acquisition_library.py
@@ -1530,7 +1530,7 @@ class DualThresholdedTriggerCount(Acquisition):
         acq_info["threshold_high"] = acq_info["thresholded_trigger_count"]["threshold_high"]
         # Pyright thinks custom StrEnum is not iterable.
         for suffix in DualThresholdedTriggerCountLabels:  # type: ignore
-            acq_info[f"label_{suffix}"] = acq_info[f"feedback_trigger_label_{suffix}"]
+            acq_info[f"label_{suffix}"] = acq_info["feedback_trigger_labels"][suffix]
         return self._get_signature(acq_info)
 
 
-- 
2.43.0


From c57e1c012fbab815435ea5092586919932ad5628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:04 +0000
Subject: [PATCH 64/89] fix: soft square pulses of 4 and 5 samples do not
 become NaN

---
 quantify_scheduler/waveforms.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/quantify_scheduler/waveforms.py b/quantify_scheduler/waveforms.py
index 97b2165..953cafb 100644
--- a/quantify_scheduler/waveforms.py
+++ b/quantify_scheduler/waveforms.py
@@ -110,8 +110,9 @@ def soft_square(t: NDArray | list[float], amp: float | complex) -> NDArray:
 
     """
     data = square(t, amp)
-    if len(t) > 1:
-        window = signal.windows.hann(int(len(t) / 2))
+    window = signal.windows.hann(int(len(t) / 2))
+    # Windows of up to two samples do not smooth; those of two samples are all zero.
+    if len(window) > 2:
         data = signal.convolve(data, window, mode="same") / sum(window)
     return data
 
-- 
2.43.0


From 6388c49025616747b334ce6b2eee1a7ab0f897b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:04 +0000
Subject: [PATCH 65/89] fix: sudden net zero pulses do not lose samples to
 floating point errors

---
 quantify_scheduler/waveforms.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/quantify_scheduler/waveforms.py b/quantify_scheduler/waveforms.py
index 953cafb..78de155 100644
--- a/quantify_scheduler/waveforms.py
+++ b/quantify_scheduler/waveforms.py
@@ -348,9 +348,10 @@ def sudden_net_zero(
 
     """
     sampling_rate = t[1] - t[0]
-    single_arm_samples = int(t_pulse / 2 / sampling_rate)
-    mid_samples = int(t_phi / sampling_rate)
-    num_corr_samples = int(t_integral_correction / sampling_rate)
+    # Rounded before flooring, so that floating point errors do not remove a sample.
+    single_arm_samples = int(round(t_pulse / 2 / sampling_rate, 6))
+    mid_samples = int(round(t_phi / sampling_rate, 6))
+    num_corr_samples = int(round(t_integral_correction / sampling_rate, 6))
 
     if 2 * single_arm_samples + mid_samples + num_corr_samples > len(t):
         raise ValueError(
-- 
2.43.0


From 9be154aa850ce2c6864d1cb3e10cd2f2b7d57455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:04 +0000
Subject: [PATCH 66/89] fix: a pulse converted to a numerical pulse keeps its
 duration when it has a t0

---
 quantify_scheduler/backends/qblox/operations/stitched_pulse.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/quantify_scheduler/backends/qblox/operations/stitched_pulse.py b/quantify_scheduler/backends/qblox/operations/stitched_pulse.py
index d1c96b0..7598c36 100644
--- a/quantify_scheduler/backends/qblox/operations/stitched_pulse.py
+++ b/quantify_scheduler/backends/qblox/operations/stitched_pulse.py
@@ -132,7 +132,8 @@ def convert_to_numerical_pulse(
     pulse_t0: float = min(p_i["t0"] for p_i in operation["pulse_info"])
     # Round to nanoseconds, to avoid rounding errors.
     timestamps = np.round(
-        pulse_t0 + np.arange(round(operation.duration * sampling_rate) + 1) / sampling_rate,
+        pulse_t0
+        + np.arange(round((operation.duration - pulse_t0) * sampling_rate) + 1) / sampling_rate,
         decimals=9,
     )
 
-- 
2.43.0


From bcd110ea50645d16b708e782f4733848101a0c28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:17 +0000
Subject: [PATCH 67/89] fix: pulse diagrams show voltage offsets in time order,
 in any x range, and combined without slopes

---
 .../schedules/_visualization/pulse_diagram.py | 32 ++++++++++++++++---
 1 file changed, 28 insertions(+), 4 deletions(-)

diff --git a/quantify_scheduler/schedules/_visualization/pulse_diagram.py b/quantify_scheduler/schedules/_visualization/pulse_diagram.py
index 17f9aa6..60fd981 100644
--- a/quantify_scheduler/schedules/_visualization/pulse_diagram.py
+++ b/quantify_scheduler/schedules/_visualization/pulse_diagram.py
@@ -126,8 +126,12 @@ def get_sampled_pulses_from_voltage_offsets(
         for clock, info_list in offset_info.items():
             time: list[float] = []
             signal: list[float] = []
-            for info in info_list:
-                if len(time) > 0:
+            for info in sorted(info_list, key=lambda info: info.time):
+                if len(time) > 0 and np.isclose(time[-1], info.time, rtol=0, atol=1e-12):
+                    # The offset is replaced immediately.
+                    time.pop()
+                    signal.pop()
+                elif len(time) > 0:
                     # Each offset is a point, so the previous offset is extended to a
                     # line before adding the next.
                     # Subtract a small number from the time so that interpolation (in
@@ -143,7 +147,7 @@ def get_sampled_pulses_from_voltage_offsets(
 
             # Filter in time: Keep one point before and one point after the limit (if
             # possible).
-            start_idx = next(i for i, v in enumerate(time) if v > x_min)
+            start_idx = next((i for i, v in enumerate(time) if v > x_min), len(time))
             if start_idx > 0:
                 start_idx -= 1
             try:
@@ -155,7 +159,7 @@ def get_sampled_pulses_from_voltage_offsets(
 
             time = np.array(time)
             signal = np.array(signal)
-            if modulation != "off":
+            if modulation != "off" and len(time) > 1:
                 new_time = np.linspace(
                     time[0], time[-1], round((time[-1] - time[0]) * sampling_rate) + 1
                 )
@@ -340,6 +344,25 @@ def merge_pulses_and_offsets(operations: list[SampledPulse]) -> SampledPulse:
     )
 
 
+def _add_zero_before_start(pulses: list[SampledPulse], sampling_rate: float) -> None:
+    """
+    Let pulses that do not start at 0 (voltage offsets) start with a step from 0.
+
+    Otherwise, there would be a slope from the previous point of any of the other pulses
+    to the start of the pulse after merging. The step is not needed if there is a point
+    of another pulse directly before the start.
+    """
+    margin = 0.02 / sampling_rate
+    all_times = np.concatenate([pulse.time for pulse in pulses])
+    for pulse in pulses:
+        start = pulse.time[0]
+        if pulse.signal[0] == 0 or not np.any(all_times < start):
+            continue
+        if start - np.max(all_times[all_times < start]) > margin:
+            pulse.time = np.concatenate(([start - margin / 2], pulse.time))
+            pulse.signal = np.concatenate(([0], pulse.signal))
+
+
 def _extract_schedule_infos(
     operation: Operation | ScheduleBase,
     port_list: list[str],
@@ -487,6 +510,7 @@ def sample_schedule(
 
     if combine_waveforms_on_same_port:
         for port, pulses in sampled_pulses.copy().items():
+            _add_zero_before_start(pulses, sampling_rate)
             sampled_pulses[port] = [merge_pulses_and_offsets(pulses)]
 
     sampled_acqs = get_sampled_acquisitions(acq_infos)
-- 
2.43.0


From ea3a24848a77c1f944d1202c41e77cd3d0762795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:23 +0000
Subject: [PATCH 68/89] fix: numerical pulses start at their first sample,
 pulse diagrams cut pulses to the x range without moving them

---
 quantify_scheduler/helpers/waveforms.py       |  4 ++++
 .../schedules/_visualization/pulse_diagram.py | 24 +++++++++++--------
 2 files changed, 18 insertions(+), 10 deletions(-)

diff --git a/quantify_scheduler/helpers/waveforms.py b/quantify_scheduler/helpers/waveforms.py
index 3bcdcd2..571dc10 100644
--- a/quantify_scheduler/helpers/waveforms.py
+++ b/quantify_scheduler/helpers/waveforms.py
@@ -347,6 +347,10 @@ def exec_custom_waveform_function(wf_func: str, t: np.ndarray, pulse_info: dict)
         if key in pulse_info:
             wf_kwargs[key] = pulse_info[key]
 
+    if function is waveforms.interpolated_complex_waveform:
+        # The samples of a pulse are relative to the first one, where the pulse starts.
+        t = t + wf_kwargs["t_samples"][0]
+
     # Calculate the numerical waveform using the wf_func
     return function(t=t, **wf_kwargs)
 
diff --git a/quantify_scheduler/schedules/_visualization/pulse_diagram.py b/quantify_scheduler/schedules/_visualization/pulse_diagram.py
index 60fd981..09f35fa 100644
--- a/quantify_scheduler/schedules/_visualization/pulse_diagram.py
+++ b/quantify_scheduler/schedules/_visualization/pulse_diagram.py
@@ -234,22 +234,13 @@ def get_sampled_pulses(
 
             if t1 < x_min or t0 > x_max:
                 continue
-            t0 = max(x_min, t0)
-            t1 = min(x_max, t1)
 
             t = np.arange(t0, t1 - 0.5 / sampling_rate, 1 / sampling_rate)
             if len(t) == 0:
                 continue
 
-            if (
-                info.op_info["wf_func"]
-                == "quantify_scheduler.waveforms.interpolated_complex_waveform"
-            ):
-                info.op_info["t_samples"] = (
-                    np.asarray(info.op_info["t_samples"]) - info.op_info["t_samples"][0]
-                )
-
             # Add the final datapoint for nicer plots
+            num_samples = len(t)
             t = np.append(t, t[-1] + 0.99 / sampling_rate)
 
             waveform = exec_waveform_function(
@@ -257,6 +248,19 @@ def get_sampled_pulses(
                 t=t - t[0],
                 pulse_info=info.op_info,
             )
+            if num_samples > 1:
+                # The shape of some pulses depends on the number of samples.
+                waveform[:-1] = exec_waveform_function(
+                    wf_func=info.op_info["wf_func"],
+                    t=t[:-1] - t[0],
+                    pulse_info=info.op_info,
+                )
+
+            # Filter in time: Keep one point before and one point after the limit (if
+            # possible).
+            start_idx = max(np.searchsorted(t, x_min, side="right") - 1, 0)
+            stop_idx = np.searchsorted(t, x_max, side="left") + 1
+            t, waveform = t[start_idx:stop_idx], waveform[start_idx:stop_idx]
 
             # Add 0 amplitude points before and after the pulse such that interpolation
             # in sum_waveforms looks correct visually.
-- 
2.43.0


From d24bb65a09058cad6adf58115555ab0cd0b68d0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:15 +0000
Subject: [PATCH 69/89] fix: automatic mixer calibration does not modify the
 hardware configuration given

---
 quantify_scheduler/backends/types/qblox.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/quantify_scheduler/backends/types/qblox.py b/quantify_scheduler/backends/types/qblox.py
index 653b899..2a07fbe 100644
--- a/quantify_scheduler/backends/types/qblox.py
+++ b/quantify_scheduler/backends/types/qblox.py
@@ -1529,8 +1529,7 @@ class QbloxMixerCorrections(MixerCorrections):
                 "set either `dc_offset_i` or `dc_offset_q` for this port-clock.",
                 ValidationWarning,
             )
-            data["dc_offset_i"] = None
-            data["dc_offset_q"] = None
+            data = {**data, "dc_offset_i": None, "dc_offset_q": None}
 
         if data.get("auto_sideband_cal", SidebandCalEnum.OFF) != SidebandCalEnum.OFF and not (
             data.get("amp_ratio") is None and data.get("phase_error") is None
@@ -1542,8 +1541,11 @@ class QbloxMixerCorrections(MixerCorrections):
                 "set either `amp_ratio` or `phase_error` for this port-clock.",
                 ValidationWarning,
             )
-            data["amp_ratio"] = DEFAULT_MIXER_AMP_RATIO
-            data["phase_error"] = DEFAULT_MIXER_PHASE_ERROR_DEG
+            data = {
+                **data,
+                "amp_ratio": DEFAULT_MIXER_AMP_RATIO,
+                "phase_error": DEFAULT_MIXER_PHASE_ERROR_DEG,
+            }
 
         return data
 
-- 
2.43.0


From b81df4e07f640e2795201d2cd2772c14606677bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:15 +0000
Subject: [PATCH 70/89] fix: initial gains next to initial offsets in old-style
 real channel configurations are kept

---
 quantify_scheduler/backends/qblox/helpers.py | 10 ----------
 1 file changed, 10 deletions(-)

diff --git a/quantify_scheduler/backends/qblox/helpers.py b/quantify_scheduler/backends/qblox/helpers.py
index d191e10..444da1e 100644
--- a/quantify_scheduler/backends/qblox/helpers.py
+++ b/quantify_scheduler/backends/qblox/helpers.py
@@ -1364,16 +1364,6 @@ def _generate_new_style_hardware_compilation_config(  # noqa: PLR0915
                         new_style_config["hardware_options"]["modulation_frequencies"][port_clock][
                             "interm_freq"
                         ] = portclock_cfg.pop("interm_freq")
-                    if "init_gain_awg_path_I" in portclock_cfg:
-                        # Set init gain from portclock config:
-                        new_style_config["hardware_options"]["sequencer_options"][port_clock][
-                            "init_gain_awg_path_I"
-                        ] = portclock_cfg.pop("init_gain_awg_path_I")
-                    if "init_gain_awg_path_Q" in portclock_cfg:
-                        # Set init gain from portclock config:
-                        new_style_config["hardware_options"]["sequencer_options"][port_clock][
-                            "init_gain_awg_path_Q"
-                        ] = portclock_cfg.pop("init_gain_awg_path_Q")
                     if any(
                         option in portclock_cfg
                         for option in [
-- 
2.43.0


From 26559087d38d8d315a3ef54a899064a8c3627979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:15 +0000
Subject: [PATCH 71/89] fix: hardware options set to None are the same as
 options left out

---
 quantify_scheduler/backends/qblox_backend.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantify_scheduler/backends/qblox_backend.py b/quantify_scheduler/backends/qblox_backend.py
index 575dd8e..e8f3581 100644
--- a/quantify_scheduler/backends/qblox_backend.py
+++ b/quantify_scheduler/backends/qblox_backend.py
@@ -1040,7 +1040,7 @@ class QbloxHardwareCompilationConfig(HardwareCompilationConfig):
 
         options_by_portclock: dict[str, dict[str, Any]] = {}
         for option, pc_to_value_map in self.hardware_options.model_dump(exclude_unset=True).items():
-            for pc, value in pc_to_value_map.items():
+            for pc, value in (pc_to_value_map or {}).items():
                 options_by_portclock.setdefault(pc, {})[option] = value
 
         for instr_name, cfg in cluster_configs.items():
-- 
2.43.0


From 9d28ada3abbc6ea4431c3be73811b36fcf081c22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:15 +0000
Subject: [PATCH 72/89] fix: refuse two complex inputs for one port-clock on
 QRC modules

---
 quantify_scheduler/backends/qblox_backend.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/quantify_scheduler/backends/qblox_backend.py b/quantify_scheduler/backends/qblox_backend.py
index e8f3581..f25b687 100644
--- a/quantify_scheduler/backends/qblox_backend.py
+++ b/quantify_scheduler/backends/qblox_backend.py
@@ -1703,6 +1703,11 @@ class _QRCCompilationConfig(_ClusterModuleCompilationConfig):
                         f"`complex_output_0` and `complex_input_0`) are allowed when they share a "
                         f"portclock in QRC modules."
                     )
+                if len(path.channel_name_measure) > 1:
+                    raise ValueError(
+                        f"Found several inputs {path.channel_name_measure} for portclock {pc}. "
+                        f"Only one input can be used together with an output in QRC modules."
+                    )
 
         return super()._validate_channel_name_measure()
 
-- 
2.43.0


From 033954ad6d2ce7c38710f6726c420b33a73883d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:20 +0000
Subject: [PATCH 73/89] fix: channel descriptions set to None are the same as
 descriptions left out

---
 quantify_scheduler/backends/qblox_backend.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/quantify_scheduler/backends/qblox_backend.py b/quantify_scheduler/backends/qblox_backend.py
index f25b687..da18cb3 100644
--- a/quantify_scheduler/backends/qblox_backend.py
+++ b/quantify_scheduler/backends/qblox_backend.py
@@ -1361,7 +1361,10 @@ class _ClusterModuleCompilationConfig(ABC, DataStructure):
             )
             hardware_description = {}
             for description in self.hardware_description.model_fields_set:
-                if description == path.channel_name:
+                if (
+                    description == path.channel_name
+                    and getattr(self.hardware_description, description) is not None
+                ):
                     hardware_description = getattr(
                         self.hardware_description,
                         description,
-- 
2.43.0


From 6e1e7843e5b26e2584656e6aee58bc71be0c5d54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:07 +0000
Subject: [PATCH 74/89] fix: old-style real channel configurations may be in
 any order

---
 quantify_scheduler/backends/qblox/helpers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantify_scheduler/backends/qblox/helpers.py b/quantify_scheduler/backends/qblox/helpers.py
index 444da1e..d3b2a4b 100644
--- a/quantify_scheduler/backends/qblox/helpers.py
+++ b/quantify_scheduler/backends/qblox/helpers.py
@@ -1496,7 +1496,7 @@ def _generate_new_style_hardware_compilation_config(  # noqa: PLR0915
                     cluster_name=cluster_name,
                     module_slot_idx=module_slot_idx,
                     channel_name=module_cfg_key,
-                    old_channel_config=module_cfg_value,
+                    old_channel_config=old_channel_config,
                     new_style_config=new_style_config,
                 )
                 # Remove channel description if only default values are set
-- 
2.43.0


From f60684f629ec08c91fab451c2a4a07dc880c0378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:32 +0000
Subject: [PATCH 75/89] fix: a clock is played by its own laser whichever other
 clocks are used, and a port behind two mixers is refused

---
 quantify_scheduler/backends/qblox_backend.py | 67 ++++++++++++--------
 1 file changed, 41 insertions(+), 26 deletions(-)

diff --git a/quantify_scheduler/backends/qblox_backend.py b/quantify_scheduler/backends/qblox_backend.py
index da18cb3..057faec 100644
--- a/quantify_scheduler/backends/qblox_backend.py
+++ b/quantify_scheduler/backends/qblox_backend.py
@@ -1026,7 +1026,7 @@ class QbloxHardwareCompilationConfig(HardwareCompilationConfig):
                         continue
 
                     for lo_name, lo_path in cfg._lo_names_and_paths():
-                        if cfg.portclock_to_path[portclock] == lo_path:
+                        if str(cfg.portclock_to_path[portclock]) == str(lo_path):
                             lo_config = lo_configs[lo_name]
                             lo_config.hardware_description.instrument_name = lo_name
                             lo_config.frequency = merge_lo_frequencies(
@@ -1183,38 +1183,55 @@ class QbloxHardwareCompilationConfig(HardwareCompilationConfig):
         # either one complex input channel or two real input channels.
         # FIXME (SE-672) the logic below is very difficult to understand and not likely
         # to be correct.
+        def add_path(pc: str, path: ChannelPath) -> None:
+            repeated_pc = False
+            # Add extra channel name for `Measure` operation. This takes place after
+            # the first channel name is added ("if not repeated_pc..." block below)
+            for pc_to_path in cluster_pc_to_path.values():
+                if pc in pc_to_path:
+                    if (
+                        path.cluster_name != pc_to_path[pc].cluster_name
+                        or path.module_name != pc_to_path[pc].module_name
+                    ):
+                        raise ValueError(
+                            f"Provided channel names for port-clock {pc} are defined "
+                            f"for different modules, but they must be defined in the "
+                            f"same module."
+                        )
+                    pc_to_path[pc].add_channel_name_measure(path.channel_name)
+                    repeated_pc = True
+
+            if not repeated_pc:
+                cluster_pc_to_path[path.cluster_name][pc] = path
+
         for port, clocks in port_to_clocks.items():
             if port not in self.connectivity.graph:
                 raise KeyError(f"{port} was not found in the connectivity.")
+            # Clocks that belong to one of the lasers this port is connected to.
+            optical_clocks = {
+                get_optical_clock(port_nbr[: port_nbr.rindex(".")], clocks)
+                for port_nbr in self.connectivity.graph.neighbors(port)
+                if "." in port_nbr and not is_path(port_nbr)
+            }
             for port_nbr in self.connectivity.graph.neighbors(port):
                 if is_path(port_nbr):
-                    path = ChannelPath.from_path(port_nbr)
                     for clock in clocks:
-                        repeated_pc = False
-                        pc = f"{port}-{clock}"
-                        # Add extra channel name for `Measure` operation. This takes place after
-                        # the first channel name is added ("if not repeated_pc..." block below)
-                        for pc_to_path in cluster_pc_to_path.values():
-                            if pc in pc_to_path:
-                                if (
-                                    path.cluster_name != pc_to_path[pc].cluster_name
-                                    or path.module_name != pc_to_path[pc].module_name
-                                ):
-                                    raise ValueError(
-                                        f"Provided channel names for port-clock {pc} are defined "
-                                        f"for different modules, but they must be defined in the "
-                                        f"same module."
-                                    )
-                                pc_to_path[pc].add_channel_name_measure(path.channel_name)
-                                repeated_pc = True
-
-                        if not repeated_pc:
-                            cluster_pc_to_path[path.cluster_name][pc] = path
+                        add_path(f"{port}-{clock}", ChannelPath.from_path(port_nbr))
 
                 elif "." in port_nbr:
                     # In this case, there is an element (e.g. I/Q mixer) between the
                     # port and the channel.
                     mixer = port_nbr[: port_nbr.rindex(".")]
+                    # NV center hack:
+                    optical_clock = get_optical_clock(mixer, clocks)
+                    mixer_clocks = (
+                        [optical_clock]
+                        if optical_clock is not None
+                        else [clock for clock in clocks if clock not in optical_clocks]
+                    )
+                    if not mixer_clocks:
+                        # All clocks of this port belong to other lasers.
+                        continue
                     mixer_path, mixer_lo = get_module_and_lo_for_mixer(mixer)
                     path = ChannelPath.from_path(mixer_path)
                     if cluster_lo_to_path[path.cluster_name].setdefault(mixer_lo, path) != path:
@@ -1222,10 +1239,8 @@ class QbloxHardwareCompilationConfig(HardwareCompilationConfig):
                         cluster_configs[path.cluster_name].additional_lo_paths.setdefault(
                             mixer_lo, []
                         ).append(path)
-                    for clock in clocks:
-                        # NV center hack:
-                        fixed_clock = get_optical_clock(mixer, clocks) or clock
-                        cluster_pc_to_path[path.cluster_name][f"{port}-{fixed_clock}"] = path
+                    for clock in mixer_clocks:
+                        add_path(f"{port}-{clock}", ChannelPath.from_path(mixer_path))
 
         for cluster_name, pc_to_path in cluster_pc_to_path.items():
             cluster_configs[cluster_name].portclock_to_path = pc_to_path
-- 
2.43.0


From 364c7aaf206163665cdc8a9b85dcd358c344de66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:34:20 +0000
Subject: [PATCH 76/89] fix: nv_dark_esr_sched_nco accepts frequencies that are
 equal or closer than 1 kHz

---
 quantify_scheduler/schedules/spectroscopy_schedules.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/quantify_scheduler/schedules/spectroscopy_schedules.py b/quantify_scheduler/schedules/spectroscopy_schedules.py
index f97b5ff..38167d1 100644
--- a/quantify_scheduler/schedules/spectroscopy_schedules.py
+++ b/quantify_scheduler/schedules/spectroscopy_schedules.py
@@ -593,10 +593,13 @@ def nv_dark_esr_sched_nco(
     for idx, spec_freq in enumerate(spec_frequencies):
         sched.add(
             SetClockFrequency(clock=spec_clock, clock_freq_new=spec_freq),
-            label=f"set_freq ({spec_clock} {spec_freq:e} Hz)",
+            label=f"set_freq {idx} ({spec_clock} {spec_freq:e} Hz)",
         )
         sched.add(Reset(device_element), label=f"Reset {idx}")
-        sched.add(SpectroscopyOperation(device_element), label=f"Spectroscopy ({spec_freq:e} Hz)")
+        sched.add(
+            SpectroscopyOperation(device_element),
+            label=f"Spectroscopy {idx} ({spec_freq:e} Hz)",
+        )
         sched.add(Measure(device_element), label=f"Measure {idx}")
         sched.add(CRCount(device_element), label=f"CRCount post {idx}")
 
-- 
2.43.0


From 32ba25b39a33d5d42878be9651509e22640b39fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:34:20 +0000
Subject: [PATCH 77/89] fix: allxy_sched refuses index 21 as any other invalid
 index

---
 quantify_scheduler/schedules/timedomain_schedules.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/quantify_scheduler/schedules/timedomain_schedules.py b/quantify_scheduler/schedules/timedomain_schedules.py
index 4667741..4b000a9 100644
--- a/quantify_scheduler/schedules/timedomain_schedules.py
+++ b/quantify_scheduler/schedules/timedomain_schedules.py
@@ -437,9 +437,9 @@ def allxy_sched(
 
     for i, elt_idx in enumerate(element_select_idx):
         # check index valid
-        if elt_idx > len(allxy_combinations) or elt_idx < 0:
+        if elt_idx >= len(allxy_combinations) or elt_idx < 0:
             raise ValueError(
-                f"Invalid index selected: {elt_idx}. Index must be in range 0 to 21 inclusive."
+                f"Invalid index selected: {elt_idx}. Index must be in range 0 to 20 inclusive."
             )
 
         (th0, phi0), (th1, phi1) = allxy_combinations[elt_idx]
-- 
2.43.0


From b732a5d92db646423fa2feabb696655ff1721ad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:02:11 +0000
Subject: [PATCH 78/89] fix: compensate the crosstalk of sudden net zero pulses
 linearly

The amplitude B of a sudden net zero pulse is relative to the amplitude A, so
scaling both of them scaled two samples of the waveform twice.
---
 quantify_scheduler/backends/qblox/crosstalk_compensation.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/quantify_scheduler/backends/qblox/crosstalk_compensation.py b/quantify_scheduler/backends/qblox/crosstalk_compensation.py
index 2112b84..4b36f72 100644
--- a/quantify_scheduler/backends/qblox/crosstalk_compensation.py
+++ b/quantify_scheduler/backends/qblox/crosstalk_compensation.py
@@ -156,8 +156,9 @@ def _scale_amplitude(pulse_info: dict[str, Any], factor: complex) -> None:
     """Multiply the waveform of a pulse by a factor."""
     for key in pulse_info:
         # The waveforms are linear in these parameters together. The derivative component of a DRAG
-        # pulse is defined relative to its Gaussian envelope.
-        if ("amp" in key and key not in ("D_amp", "t_samples")) or (
+        # pulse is defined relative to its Gaussian envelope, and the amplitude B of a sudden net
+        # zero pulse relative to the amplitude A.
+        if ("amp" in key and key not in ("D_amp", "amp_B", "t_samples")) or (
             key == "offset" and pulse_info["wf_func"] == "quantify_scheduler.waveforms.ramp"
         ):
             scaled = np.multiply(pulse_info[key], factor)
-- 
2.43.0


From 3140dbbc8890cb19fce9ec69e83f9f6d1d58e7fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:16:52 +0000
Subject: [PATCH 79/89] fix: sudden net zero pulses keep the imaginary part of
 a complex amplitude

---
 quantify_scheduler/waveforms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantify_scheduler/waveforms.py b/quantify_scheduler/waveforms.py
index 78de155..63b4c32 100644
--- a/quantify_scheduler/waveforms.py
+++ b/quantify_scheduler/waveforms.py
@@ -358,7 +358,7 @@ def sudden_net_zero(
             "Specified pulse part durations add up to longer than the given time array."
         )
 
-    waveform = np.zeros(len(t))
+    waveform = np.zeros(len(t), dtype=np.result_type(amp_A, float))
     waveform[:single_arm_samples] = amp_A
     waveform[single_arm_samples - 1] = amp_A * amp_B
     waveform[single_arm_samples + mid_samples : 2 * single_arm_samples + mid_samples] = (
-- 
2.43.0


From d007e71f26c8f177debd5ab90637489a6be71281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:57:49 +0000
Subject: [PATCH 80/89] fix: stitched pulse builder accepts voltage offsets
 that follow each other directly

---
 .../qblox/operations/stitched_pulse.py        | 21 ++++++++++---------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/quantify_scheduler/backends/qblox/operations/stitched_pulse.py b/quantify_scheduler/backends/qblox/operations/stitched_pulse.py
index 7598c36..3b90357 100644
--- a/quantify_scheduler/backends/qblox/operations/stitched_pulse.py
+++ b/quantify_scheduler/backends/qblox/operations/stitched_pulse.py
@@ -558,22 +558,17 @@ class StitchedPulseBuilder:
         if closest_prev_offset_idx == -1:
             # This offset comes before all others. Return whether there is overlap with the first
             # stored offset.
-            overlaps_with_existing_offsets = (
-                offset.t0 + (offset.duration or 0.0) > self._offsets[0].t0
-            )
+            overlaps_with_existing_offsets = self._lasts_beyond(offset, self._offsets[0].t0)
         elif closest_next_offset_idx == len(self._offsets):
             # This offset comes after all others. Return whether there is overlap with the last
             # stored offset.
-            overlaps_with_existing_offsets = (
-                self._offsets[-1].t0 + (self._offsets[-1].duration or 0.0) > offset.t0
-            )
+            overlaps_with_existing_offsets = self._lasts_beyond(self._offsets[-1], offset.t0)
         else:
             closest_next_offset = self._offsets[closest_next_offset_idx]
             closest_prev_offset = self._offsets[closest_prev_offset_idx]
-            overlaps_with_existing_offsets = (
-                offset.t0 + (offset.duration or 0.0) > closest_next_offset.t0
-                or closest_prev_offset.t0 + (closest_prev_offset.duration or 0.0) > offset.t0
-            )
+            overlaps_with_existing_offsets = self._lasts_beyond(
+                offset, closest_next_offset.t0
+            ) or self._lasts_beyond(closest_prev_offset, offset.t0)
 
         if overlaps_with_existing_offsets:
             raise RuntimeError(
@@ -582,6 +577,12 @@ class StitchedPulseBuilder:
 
         return closest_next_offset_idx
 
+    @staticmethod
+    def _lasts_beyond(offset: _VoltageOffsetInfo, time: float) -> bool:
+        """Whether the offset ends after ``time``, apart from floating point errors."""
+        end = offset.t0 + (offset.duration or 0.0)
+        return end > time and not math.isclose(end, time)
+
     def build(self) -> StitchedPulse:
         """
         Build the StitchedPulse.
-- 
2.43.0


From 4e2c622ff01baa0498b11abad19ba20961d0436c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:57:50 +0000
Subject: [PATCH 81/89] fix: circuit diagram keeps its rows when there are
 unknown ports

---
 .../_visualization/circuit_diagram.py         | 23 +++++++------------
 1 file changed, 8 insertions(+), 15 deletions(-)

diff --git a/quantify_scheduler/schedules/_visualization/circuit_diagram.py b/quantify_scheduler/schedules/_visualization/circuit_diagram.py
index 40a56ac..22357e5 100644
--- a/quantify_scheduler/schedules/_visualization/circuit_diagram.py
+++ b/quantify_scheduler/schedules/_visualization/circuit_diagram.py
@@ -587,23 +587,16 @@ def _get_device_element_and_port_map_from_schedule(
                 # Can be None e.g. in case of NCO operations.
                 ports.add(port)
 
+    # Ports that do not belong to any of the device elements share one row at the bottom.
+    has_other = any(port.split(":")[0] not in device_elements for port in ports)
     device_element_map = {
-        device_element: idx for idx, device_element in enumerate(sorted(device_elements))
+        device_element: idx
+        for idx, device_element in enumerate(sorted(device_elements), start=int(has_other))
     }
-    port_map: dict[str, int] = {}
-    added_other = False
-    for port in ports:
-        maybe_device_element = port.split(":")[0]
-        if maybe_device_element in device_elements:
-            port_map[port] = device_element_map[maybe_device_element]
-        elif not added_other:
-            for device_element, idx in device_element_map.items():
-                device_element_map[device_element] = idx + 1
-            device_element_map["other"] = 0
-            port_map[port] = 0
-            added_other = True
-        else:
-            port_map[port] = device_element_map["other"]
+    if has_other:
+        device_element_map["other"] = 0
+    port_map = {port: device_element_map.get(port.split(":")[0], 0) for port in ports}
+
     return device_element_map, port_map
 
 
-- 
2.43.0


From be6664d24884130ff57c5199f9ede48ea57d3cf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:57:50 +0000
Subject: [PATCH 82/89] fix: circuit diagram draws loops around operations
 without a port

---
 quantify_scheduler/schedules/_visualization/circuit_diagram.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/quantify_scheduler/schedules/_visualization/circuit_diagram.py b/quantify_scheduler/schedules/_visualization/circuit_diagram.py
index 22357e5..2c5d4b6 100644
--- a/quantify_scheduler/schedules/_visualization/circuit_diagram.py
+++ b/quantify_scheduler/schedules/_visualization/circuit_diagram.py
@@ -423,6 +423,7 @@ def _get_indices(
         index_set.update(
             port_map[info["port"]]
             for info in chain(operation["pulse_info"], operation["acquisition_info"])
+            if info["port"] is not None  # Can be None e.g. in case of NCO operations.
         )
 
     indices: set[int] = set()
-- 
2.43.0


From a21efee2d5ff3ffd143c570aac13911a5772db1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:57:50 +0000
Subject: [PATCH 83/89] fix: circuit diagram draws nested control flow

---
 .../_visualization/circuit_diagram.py         | 19 +++----------------
 1 file changed, 3 insertions(+), 16 deletions(-)

diff --git a/quantify_scheduler/schedules/_visualization/circuit_diagram.py b/quantify_scheduler/schedules/_visualization/circuit_diagram.py
index 2c5d4b6..f4d6cdc 100644
--- a/quantify_scheduler/schedules/_visualization/circuit_diagram.py
+++ b/quantify_scheduler/schedules/_visualization/circuit_diagram.py
@@ -334,17 +334,11 @@ def _walk_schedule(
             )
     elif isinstance(sched_or_op, LoopOperation):
         yield time_offset, sched_or_op
-        if isinstance(sched_or_op.body, ScheduleBase):
-            yield from _walk_schedule(sched_or_op.body, time_offset)
-        else:
-            yield time_offset, sched_or_op.body
+        yield from _walk_schedule(sched_or_op.body, time_offset)
         yield time_offset + int(sched_or_op.duration), _ControlFlowEnd.LOOP_END
     elif isinstance(sched_or_op, ConditionalOperation):
         yield time_offset, sched_or_op
-        if isinstance(sched_or_op.body, ScheduleBase):
-            yield from _walk_schedule(sched_or_op.body, time_offset)
-        else:
-            yield time_offset, sched_or_op.body
+        yield from _walk_schedule(sched_or_op.body, time_offset)
         yield time_offset + int(sched_or_op.duration), _ControlFlowEnd.CONDI_END
     elif isinstance(sched_or_op, Operation):
         yield time_offset, sched_or_op
@@ -359,10 +353,7 @@ def _walk_schedule_only_operations(
         for operation in sched_or_op.operations.values():
             yield from _walk_schedule_only_operations(operation)
     elif isinstance(sched_or_op, (LoopOperation, ConditionalOperation)):
-        if isinstance(sched_or_op.body, ScheduleBase):
-            yield from _walk_schedule_only_operations(sched_or_op.body)
-        else:
-            yield sched_or_op.body
+        yield from _walk_schedule_only_operations(sched_or_op.body)
     elif isinstance(sched_or_op, Operation):
         yield sched_or_op
     else:
@@ -427,10 +418,6 @@ def _get_indices(
         )
 
     indices: set[int] = set()
-    if isinstance(sched_or_op, Operation):
-        add_index_from_operation(sched_or_op, indices)
-        return indices
-
     for operation in _walk_schedule_only_operations(sched_or_op):
         add_index_from_operation(operation, indices)
 
-- 
2.43.0


From 7e9883e2b844103792771db9d59d797634443104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:57:50 +0000
Subject: [PATCH 84/89] fix: circuit diagram places brackets and frames around
 the drawn operations

---
 .../_visualization/circuit_diagram.py         | 25 +++++++++++--------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/quantify_scheduler/schedules/_visualization/circuit_diagram.py b/quantify_scheduler/schedules/_visualization/circuit_diagram.py
index f4d6cdc..7b58b38 100644
--- a/quantify_scheduler/schedules/_visualization/circuit_diagram.py
+++ b/quantify_scheduler/schedules/_visualization/circuit_diagram.py
@@ -634,17 +634,19 @@ def circuit_diagram_matplotlib(
     current_diagram_time = 0
     last_operation_time = 0
 
-    # Stack of (loop start time, loop operation) tuples
+    # Times at which the operations are drawn, in order of drawing
+    draw_times: list[int] = []
+    # Stack of (index of the first operation in the loop, loop operation) tuples
     loop_scopes: list[tuple[int, LoopOperation]] = []
-    # Stack of (conditional start time, conditional operation) tuples
+    # Stack of (index of the first operation in the body, conditional operation) tuples
     conditional_scopes: list[tuple[int, ConditionalOperation]] = []
     # Map from feedback_trigger_label to (thresholded acq time, device_element) tuple
     feedback_acq_map: dict[str, tuple[int, int]] = {}
     for abs_time, operation in _walk_schedule(schedule):
         if isinstance(operation, LoopOperation):
-            loop_scopes.append((current_diagram_time + 1, operation))
+            loop_scopes.append((len(draw_times), operation))
         elif isinstance(operation, ConditionalOperation):
-            conditional_scopes.append((current_diagram_time + 1, operation))
+            conditional_scopes.append((len(draw_times), operation))
         elif isinstance(operation, Operation):
             if abs_time > last_operation_time:
                 current_diagram_time += 1
@@ -655,13 +657,14 @@ def circuit_diagram_matplotlib(
                 draw_time = current_diagram_time
             else:
                 draw_time = abs_time
+            draw_times.append(draw_time)
             if (
                 feedback_label_and_device_element_idx := _get_feedback_label_and_device_element_idx(
                     operation, port_map, device_element_map
                 )
             ) is not None:
                 feedback_label, device_element_idx = feedback_label_and_device_element_idx
-                feedback_acq_map[feedback_label] = current_diagram_time, device_element_idx
+                feedback_acq_map[feedback_label] = draw_time, device_element_idx
             _draw_operation(
                 operation=operation,
                 device_element_map=device_element_map,
@@ -673,17 +676,17 @@ def circuit_diagram_matplotlib(
         elif isinstance(operation, ScheduleBase):
             pass
         elif operation == _ControlFlowEnd.LOOP_END:
-            start_time, loop_op = loop_scopes.pop()
+            first_idx, loop_op = loop_scopes.pop()
             _draw_loop(
                 ax=ax,
                 device_element_map=device_element_map,
                 port_map=port_map,
                 operation=loop_op,
-                start_time=start_time,
-                end_time=current_diagram_time,
+                start_time=min(draw_times[first_idx:]),
+                end_time=max(draw_times[first_idx:]),
             )
         elif operation == _ControlFlowEnd.CONDI_END:
-            body_start, conditional_op = conditional_scopes.pop()
+            first_idx, conditional_op = conditional_scopes.pop()
             feedback_trigger_label = conditional_op["control_flow_info"]["feedback_trigger_label"]
             try:
                 measure_time, measure_device_element_idx = feedback_acq_map[feedback_trigger_label]
@@ -697,8 +700,8 @@ def circuit_diagram_matplotlib(
                 measure_time=measure_time,
                 measure_device_element_idx=measure_device_element_idx,
                 body=conditional_op.body,
-                body_start=body_start,
-                body_end=current_diagram_time,
+                body_start=min(draw_times[first_idx:]),
+                body_end=max(draw_times[first_idx:]),
                 device_element_map=device_element_map,
                 port_map=port_map,
             )
-- 
2.43.0


From 0c504f3c1ac83839cbf69582d21b0b2e848b5fd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:01:05 +0000
Subject: [PATCH 85/89] fix: profiled instrument coordinator passes
 allow_failure on to stop

---
 quantify_scheduler/gettables_profiled.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/quantify_scheduler/gettables_profiled.py b/quantify_scheduler/gettables_profiled.py
index 3cb2981..ce85688 100644
--- a/quantify_scheduler/gettables_profiled.py
+++ b/quantify_scheduler/gettables_profiled.py
@@ -124,8 +124,8 @@ class ProfiledInstrumentCoordinator(InstrumentCoordinator):
         self.parent_ic.start()
 
     @profiler
-    def stop(self, allow_failure: bool = False) -> None:  # noqa: ARG002 Not used
-        self.parent_ic.stop()
+    def stop(self, allow_failure: bool = False) -> None:
+        self.parent_ic.stop(allow_failure=allow_failure)
 
     @profiler
     def retrieve_acquisition(self) -> Dataset:
-- 
2.43.0


From e407c6999a7e08aefd11c7604eed021a4966d8e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:01:05 +0000
Subject: [PATCH 86/89] fix: profiled schedule gettable returns the compiled
 schedule

---
 quantify_scheduler/gettables_profiled.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/quantify_scheduler/gettables_profiled.py b/quantify_scheduler/gettables_profiled.py
index ce85688..37287eb 100644
--- a/quantify_scheduler/gettables_profiled.py
+++ b/quantify_scheduler/gettables_profiled.py
@@ -159,9 +159,9 @@ class ProfiledScheduleGettable(ScheduleGettable):
         self.quantum_device.instr_instrument_coordinator(self.profiled_instr_coordinator.name)
 
     @profiler
-    def compile(self) -> None:
+    def compile(self) -> CompiledSchedule:
         """Overwrite compile step for profiling."""
-        super().compile()
+        return super().compile()
 
     def close(self) -> None:
         """Cleanup new profiling instruments to avoid future conflicts."""
-- 
2.43.0


From a749e2ef1c4bab45f0005a4e395a7e0bc29aa1de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:01:05 +0000
Subject: [PATCH 87/89] fix: pulse diagram in one plot shows pulses with
 voltage offsets and pulses out of order

---
 .../schedules/_visualization/pulse_diagram.py      | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/quantify_scheduler/schedules/_visualization/pulse_diagram.py b/quantify_scheduler/schedules/_visualization/pulse_diagram.py
index 09f35fa..d912441 100644
--- a/quantify_scheduler/schedules/_visualization/pulse_diagram.py
+++ b/quantify_scheduler/schedules/_visualization/pulse_diagram.py
@@ -892,6 +892,14 @@ def _clean_flat_artifacts(x_data: np.ndarray, y_data: np.ndarray) -> tuple[np.nd
     return x_data[keep] / scale, y_data[keep]
 
 
+def _sum_pulses_and_offsets(pulses: list[SampledPulse]) -> tuple[np.ndarray, np.ndarray]:
+    """Time and value of the sum of pulses and voltage offsets, with vertical steps."""
+    pulses = [SampledPulse(time=p.time, signal=p.signal, label=p.label) for p in pulses]
+    _add_zero_before_start(pulses, sampling_rate=1e12)
+    merged = merge_pulses_and_offsets(pulses)
+    return merged.time, np.asarray(merged.signal, dtype=complex)
+
+
 def plot_single_subplot_mpl(
     sampled_schedule: dict[str, list[SampledPulse]],
     ax: mpl.axes.Axes | None = None,
@@ -930,7 +938,11 @@ def plot_single_subplot_mpl(
     for i, (port, pulses) in enumerate(sampled_schedule.items()):
         time, value, offset_time, offset_value = _extract_signal_component(pulses)
         time, value = _clean_flat_artifacts(time, value)
-        time, value = _merge_signal_and_offset(time, value, offset_time, offset_value)
+        if time.size > 0 and (offset_time.size > 0 or np.any(np.diff(time) < 0)):
+            # The pulses do not simply follow each other.
+            time, value = _sum_pulses_and_offsets(pulses)
+        else:
+            time, value = _merge_signal_and_offset(time, value, offset_time, offset_value)
 
         ax.plot(time, value.real, color=f"C{i}", label=f"port {port}")
         ax.fill_between(time, value.real, color=f"C{i}", alpha=0.2)
-- 
2.43.0


From b158583f8b803a7066a8e2d7292fa6ee548f19b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:01:05 +0000
Subject: [PATCH 88/89] fix: decomposing a long pulse into a whole number of
 parts adds no extra part

---
 quantify_scheduler/operations/pulse_library.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/quantify_scheduler/operations/pulse_library.py b/quantify_scheduler/operations/pulse_library.py
index 747bbd2..1b77866 100644
--- a/quantify_scheduler/operations/pulse_library.py
+++ b/quantify_scheduler/operations/pulse_library.py
@@ -4,6 +4,7 @@
 
 from __future__ import annotations
 
+import math
 from dataclasses import dataclass
 from typing import Any, Literal
 
@@ -624,6 +625,11 @@ def decompose_long_square_pulse(
 
     duration_last_pulse = duration % duration_max
     num_pulses = int(duration // duration_max)
+    nearest_num_pulses = round(duration / duration_max)
+    if math.isclose(duration, nearest_num_pulses * duration_max, rel_tol=1e-12):
+        # A whole number of pulses, apart from floating-point errors.
+        duration_last_pulse = 0.0
+        num_pulses = nearest_num_pulses
 
     pulses = [SquarePulse(duration=duration_max, **kwargs) for _ in range(num_pulses)]
 
-- 
2.43.0


From c28edc04cca5acc2a2598cf48e448511175ba0da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:01:05 +0000
Subject: [PATCH 89/89] fix: acquisitions drawn over a plot end when the
 acquisition ends

---
 quantify_scheduler/schedules/_visualization/pulse_diagram.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/quantify_scheduler/schedules/_visualization/pulse_diagram.py b/quantify_scheduler/schedules/_visualization/pulse_diagram.py
index d912441..1bb6546 100644
--- a/quantify_scheduler/schedules/_visualization/pulse_diagram.py
+++ b/quantify_scheduler/schedules/_visualization/pulse_diagram.py
@@ -1181,8 +1181,9 @@ def plot_acquisition_operations(
         _ = idx  # unused variable
         operation = schedule.operations[schedulable["operation_id"]]
         if isinstance(operation, Acquisition):
-            t0 = schedulable["abs_time"] + operation.data["acquisition_info"][0]["t0"]
-            t1 = t0 + operation.duration
+            acq_info = operation.data["acquisition_info"][0]
+            t0 = schedulable["abs_time"] + acq_info["t0"]
+            t1 = t0 + acq_info["duration"]
             handle = ax.axvspan(t0, t1, **kwargs)
             handles_list.append(handle)
     return handles_list
-- 
2.43.0

