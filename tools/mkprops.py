#!/usr/bin/env python3
"""Writes /verif/properties.jsonl. The list below is the source of truth."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, **kw):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    a.update(kw)
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

# ---------------------------------------------------------------- time
p("T01", "Comparing two instants agrees with the time between them",
  "For any two instants, each of <, <=, >, >=, ==, != gives the answer that the exact nanosecond difference between them gives, so instants are totally ordered and two instants that differ by a nanosecond are never confused. Tolerance-based (quantised) comparisons call two instants equal exactly when they lie within half of the fixed resolution of each other, and the quantised orderings are consistent with that equality whichever side the quantised instant is on.",
  ["inputs"], "every pair of instants (past and future, equal seconds with different nanoseconds, straddling a second, and around the half-resolution boundary)",
  "The tests compare a few hand-picked pairs; the sub-second cases, where seconds tie, need every operator to be tried on both sides of the tie.",
  ["common/utctime.h", "common/utctime.cxx", "common/quantized_time.h", "common/quantized_time.cxx"],
  [("relational operators", "common/utctime.cxx"), ("quantised relational operators", "common/quantized_time.cxx")])
p("T02", "Time arithmetic is exact, invertible and keeps instants normalised",
  "Adding or subtracting a duration (an instant difference, a whole number of seconds, or a real number of seconds) moves an instant by exactly that duration to within one nanosecond and the precision of the number given, in-place and out-of-place forms agree, and the difference of two instants added back to the second gives the first. Every instant so produced, or built from a real or (seconds, nanoseconds) pair, positive or negative, has a nanosecond part in [0, 1e9) and converts to seconds without losing more than floating-point precision.",
  ["inputs", "histories"], "every instant, every duration sign and magnitude, and sequences of additions and subtractions",
  "Wrap-arounds depend on the combination of sign, size and nearness to a whole second; the tests sample about ten of them.",
  ["common/utctime.h", "common/utctime.cxx"],
  [("nanosecond wrap", "UTCTime::wrapNsec, operator+/-, constructors")])
p("T03", "UTC, GPS, Galileo and GLONASS time conversions follow their definitions",
  "An instant built from a GPS or Galileo week and time of week, from a GLONASS week and time of week, or from a calendar date equals the instant that the definition of that time scale gives (epochs, 18 leap seconds, three-hour GLONASS offset), to the millisecond or better; reading the GPS week and time of week, or the GLONASS week and day, back from an instant returns what it was built from. Given only a GLONASS time of day and a reference instant, the instant chosen is the one with that time of day nearest the reference; the printed form of an instant denotes that instant to the millisecond.",
  ["inputs"], "every week, time of week (including sub-second milliseconds and week boundaries), calendar date and reference instant",
  "The existing tests use whole seconds and a handful of dates, so the millisecond part, late weeks and the midnight boundary are never exercised.",
  ["common/utctime.h", "common/utctime.cxx"],
  [("conversions", "UTCTime::fromGPS/fromGalileo/fromGlonass/fromGlonassTimeOfDay/fromCalendar/GpsWeek/GpsTow/GlonassWeek/GlonassDayOfWeek/str")])

# ---------------------------------------------------------------- containers and config
p("B01", "The fixed-capacity ring buffer behaves as a bounded double-ended queue",
  "After any sequence of pushes, in-place constructions, pops and clears at either end, the ring buffer holds exactly the elements a double-ended queue of the same capacity would hold (pushing to a full buffer drops the element at the opposite end), and indexing, front/back, iteration in both directions, iterator arithmetic and comparison, size, empty and full all agree with it. Each stored element is constructed once and destroyed once, no element outside the queue is touched, and copying a buffer yields an independent buffer.",
  ["histories"], "every sequence of operations, every capacity, wrap position and element type with a non-trivial lifetime",
  "Wrong wrap-around, wrong eviction or a double destruction only shows at particular head/tail positions reached through a long enough mixed sequence.",
  ["common/circular_buffer.h"], [("ring indices and manual lifetime", "mc::CircularBuffer")])
p("B02", "Configuration look-ups return the file's value, the default, or fail loudly",
  "Looking up a slash-separated path returns the value (scalar, boolean, text, vector, matrix) stored at that path of the configuration file; a missing or malformed optional entry leaves the caller's default unchanged, and a missing or malformed required entry, or a list of the wrong length for a fixed-size vector or matrix, stops the program instead of producing a value. Looking one entry up never changes what a later look-up of any entry returns.",
  ["inputs", "histories"], "every configuration tree, path and sequence of look-ups",
  "The tests use one small file; whether look-ups are independent of each other, and what a list of the wrong length does, needs generated trees and sequences.",
  ["utils/config.h", "utils/config.cxx", "utils/split_string.cxx"],
  [("path lookup", "mc::utils::Config::get / lookUp")])

# ---------------------------------------------------------------- ephemeris
p("E01", "Bit-field extraction and insertion are exact for every position and width",
  "Reading a bit field of any width at any bit offset returns the unsigned, two's-complement or sign-magnitude number that the big-endian bit string encodes at that place. Writing a field and reading it back gives the value, and changes no bit outside the field.",
  ["inputs"], "every buffer content, offset, width and value up to 32 bits",
  "Masks differ for each combination of alignment and width; a wrong mask for one of the thousands of combinations is invisible to a dozen fixed cases.",
  ["common/ephemeris/bit_tools.h"], [("masking and shifting", "getBit*/setBit* templates")])
p("E02", "Corrupted navigation messages are recognised and intact ones accepted",
  "The 24-bit checksum equals the standard CRC-24Q of the message, so any single error burst of up to 24 bits, or one to three flipped bits within a page, is detected. The GLONASS string check accepts every string carrying the code bits its data require and rejects every string in which any one data bit, or any two bits, are wrong.",
  ["inputs", "fault_sequences"], "every message content and length and every corruption pattern of the stated kinds",
  "A wrong table entry or parity mask is exercised only by messages with particular bits set.",
  ["utils/crc.cxx", "common/ephemeris/glonass.cxx"], [("CRC-24Q table", "utils/crc.cxx"), ("Hamming check", "gloTest")])
p("E03", "GPS navigation subframes decode to the broadcast ephemeris they encode",
  "Feeding the three ephemeris subframes of a GPS satellite, in any order and interleaved with other subframes, yields an ephemeris in which every field equals the transmitted value with the units and scale of the interface specification, for every representable field value, and its reference times are the instants those fields denote. Completion is reported exactly when all three parts of one issue of data have been received.",
  ["inputs", "histories"], "every field value (including sign and extremes) and every arrival order of subframes",
  "One recorded satellite exercises one value per field; sign extension, split fields and order dependence need the whole range.",
  ["common/ephemeris/gps.cxx", "common/ephemeris/gps.h"], [("subframe decoding", "GPSEphemeris::frame1/frame2/frame3/frame4, parse")])
p("E04", "Galileo navigation pages decode to the broadcast ephemeris they encode",
  "Feeding the even/odd I/NAV pages of a Galileo satellite, words in any cyclic order and repeated as broadcast, yields an ephemeris in which every field equals the transmitted value with the units and scale of the interface specification, agreeing with an independent decoder, for every representable field value, and its reference times are the instants those fields denote. Pages whose checksum does not match contribute nothing.",
  ["inputs", "histories"], "every field value, word order, corruption and repetition of pages",
  "The recorded pages hold one value per field and one order; the split 16/122-bit words and signed fields need generated values.",
  ["common/ephemeris/galileo.cxx", "common/ephemeris/galileo.h"], [("page assembly and word decoding", "GalileoEphemeris::parse and frame decoders")])
p("E05", "GLONASS navigation strings decode to the broadcast ephemeris they encode",
  "Feeding GLONASS strings 1 to 5 in any order yields an ephemeris in which every field equals the transmitted value with the units, scale and sign-magnitude convention of the interface control document, for every representable field value, and its reference time is the instant those fields denote. Strings failing the error check contribute nothing.",
  ["inputs", "histories"], "every field value, order of strings and corruption",
  "One recorded frame holds one value per field.",
  ["common/ephemeris/glonass.cxx", "common/ephemeris/glonass.h"], [("string decoding", "GlonassEphemeris::parse and frame decoders")])
p("E06", "A completed ephemeris never mixes two issues of data",
  "Whatever the order, repetition or loss of navigation messages when a satellite changes over from one issue of data to the next, and however many ephemerides the same decoder has already completed, an ephemeris reported complete has all its orbit and clock parameters from messages with one and the same issue of data.",
  ["histories", "fault_sequences"], "every history of messages from several successive issues, with loss, repetition and reordering, through one decoder object",
  "A test feeds one issue in order; mixing needs a change of issue half-way through, after an earlier success.",
  ["common/ephemeris/gps.cxx", "common/ephemeris/galileo.cxx", "common/ephemeris/glonass.cxx"],
  [("issue-of-data consistency and collected-part bookkeeping", "parse() of the three decoders")])
p("E07", "Navigation decoders survive arbitrary input",
  "No sequence of byte blocks of any content handed to the navigation-message decoders, bit readers or checksums makes them read or write outside the block or their own memory, crash, hang, or abort. A sequence of blocks that contains no valid message never leads to a reported complete ephemeris for the checksum-protected messages.",
  ["inputs", "fault_sequences"], "every content and sequence of byte blocks at least as long as the message format states, and reported lengths that are too short",
  "Receivers deliver corrupt and truncated blocks; tests feed only well-formed ones.",
  ["common/ephemeris/gps.cxx", "common/ephemeris/galileo.cxx", "common/ephemeris/glonass.cxx", "common/ephemeris/bit_tools.h", "utils/crc.cxx"],
  [("input handling", "parse() of the three decoders")])

# ---------------------------------------------------------------- satellites
p("S01", "The per-satellite almanac stays sorted and yields the closest ephemeris",
  "After ephemerides are added in any order, a satellite's almanac is ordered by reference time, holds one entry per reference time (the latest received), and contains every distinct one received. A look-up at any instant returns the entry whose reference time is nearest that instant; an ephemeris of another satellite or constellation is refused.",
  ["histories", "inputs"], "every sequence of ephemeris arrivals, with duplicates and reordering, and every query instant",
  "Insertion position and tie handling depend on arrival order; tests add a few in one order.",
  ["common/satellite/satellite.h", "common/satellite/satellite.cxx", "core/sat_manager.cxx"],
  [("sorted insert and nearest search", "Satellite::addEph / findClosestEphemeris")])
p("S02", "GPS and Galileo satellite states follow the broadcast orbit model",
  "For any plausible GPS or Galileo ephemeris and any time within its validity, the computed satellite position and clock offset agree with the interface-specification algorithm (independent implementation) to a millimetre-level bound, and the computed velocity and clock drift are the time derivatives of the computed position and clock. Times outside the validity interval are refused and nothing is produced.",
  ["inputs"], "every orbit (eccentricity, inclination, corrections, reference and clock epochs) and time offset, including week crossings and perigee/apogee",
  "Tests check one orbit at a few times; derivative terms and clock epochs that differ from the orbit epoch do not appear there.",
  ["common/satellite/satellite_state.cxx", "common/satellite/satellite.h"], [("Kepler propagation", "eph2Sat(KeplerianEphemeris)")])
p("S03", "GLONASS satellite states follow the broadcast equations of motion",
  "For any plausible GLONASS ephemeris and time within its validity, forwards or backwards, the computed state agrees with an independent integration of the interface-control-document equations of motion within centimetres, velocity being the derivative of position. Asking for the same time again, after any other requests, gives the same answer.",
  ["inputs", "histories"], "every ephemeris state, time offset of either sign, and history of earlier queries on the same output object",
  "Tests query one ephemeris into a fresh object; dependence on previous contents needs query histories.",
  ["common/satellite/satellite_state.cxx", "common/satellite/satellite.h"], [("Runge-Kutta propagation", "eph2Sat(GlonassEphemeris)")])
p("S04", "Signal transmission states satisfy the light-time equation",
  "The satellite state prepared for a receiver position and reception time is the state at the transmission instant: the travel time implied by the distance, including the Earth-rotation (Sagnac) term, equals the reception time minus the state's time to within the nanosecond resolution of instants (a few millimetres of satellite motion). Azimuth and elevation computed for it equal the direction of the satellite in the local north/east/down frame.",
  ["inputs", "histories"], "every receiver position and velocity, constellation, reception time, and sequence of updates of the same cache",
  "Tests check one receiver; convergence and sign of the rotation term vary with geometry.",
  ["common/satellite/satellite_cache.cxx", "common/satellite/azel.cxx", "common/satellite/satellite.cxx"],
  [("light-time fixed point", "SatelliteCache::update"), ("az/el", "los2Azel, azel")])
p("S05", "Ionosphere and troposphere delays follow the broadcast correction models",
  "For any position, satellite direction and time, the ionospheric delay on the first frequency equals the broadcast (Klobuchar) model with the built-in parameters, and the tropospheric delay equals the Saastamoinen model with standard atmosphere; both are finite, non-negative, and do not depend on the order in which they are evaluated. Below the horizon or at unusable heights the corrections are zero as the reference models state.",
  ["inputs"], "every position, direction and time of day",
  "The model has clamps and a daily half-cosine whose branches need different places and times of day.",
  ["common/satellite/atm_correction.cxx"], [("correction models", "ionosphericDelay / troposphericDelay / computeAtmCorrection")])
p("W01", "Geodetic, Earth-fixed and local-level coordinates convert consistently",
  "Converting a geodetic position to Earth-fixed coordinates gives the WGS-84 point, and converting back returns the position to sub-millimetre everywhere, poles and date line included. Local north/east/down frames are right-handed, orthonormal, aligned with true north, east and down, and converting points between local-level and Earth-fixed or geodetic coordinates and back is the identity.",
  ["inputs"], "every latitude, longitude and height from below the surface to satellite altitude",
  "Singularities at the poles, equator and date line and the iteration's convergence need a sweep of the whole globe.",
  ["utils/wgs84.h", "utils/wgs84.cxx"], [("coordinate conversions", "WGS84::*")])

# ---------------------------------------------------------------- math
p("M01", "Rotations obey the group laws whichever representation is used",
  "Unit quaternions and rotation matrices represent the same group: composition, inverse, rotation of vectors (active and passive), exponential, logarithm, adjoint, and the shortest rotation between two directions satisfy the group and Lie-algebra identities and agree with each other and with the reference formulas. Composed, exponentiated and inverted rotations stay normalised, and the logarithm returns the rotation vector of least angle.",
  ["inputs", "histories"], "every rotation, including near identity, near half-turn, either quaternion sign, opposite and parallel directions, and long products",
  "Small-angle and half-turn branches are reached with probability zero by random sampling in tests.",
  ["common/math/quat.h", "common/math/so3.h"], [("exp/log branches, composition", "math::Quat, math::SO3")])
p("M02", "Rigid-body transforms obey the group laws whichever representation is used",
  "Dual quaternions and rotation-translation pairs represent the same group: composition, inverse, transforming points (active and passive), exponential, logarithm and adjoint satisfy the group and Lie-algebra identities and agree with each other and with the homogeneous-matrix formulas. Composed and inverted transforms stay valid unit transforms.",
  ["inputs", "histories"], "every transform, including pure translations, tiny rotations, near half-turns, either sign, large translations, and long products",
  "Branches at small angles and the sign ambiguity are not reached by the tests' random samples.",
  ["common/math/dquat.h", "common/math/se3.h"], [("exp/log branches, composition", "math::DQuat, math::SE3")])
p("M03", "Every analytic derivative of a group operation is the true derivative",
  "The derivatives that rotation and rigid-transform classes report for composition, inversion, exponential, logarithm, perturbation and acting on vectors equal the limit of difference quotients of those operations on the manifold, for both left-hand and right-hand arguments. This holds in the small-angle branches as well.",
  ["inputs"], "every pair of elements and vectors, including near identity and large rotations",
  "Wrong terms in a Jacobian vanish at particular points; a few random tests do not visit the series branches.",
  ["common/math/quat.h", "common/math/so3.h", "common/math/dquat.h", "common/math/se3.h", "common/numerical_jacobian.h"],
  [("analytic Jacobians", "composeLeft/RightJac..., exp/log Jacobians")])

# ---------------------------------------------------------------- logging
p("L01", "Serialised values come back unchanged",
  "Writing any sequence of loggable values (numbers, vectors and matrices, quaternions and transforms, times, observations, inertial samples, and the three kinds of ephemeris) and reading the same types back returns equal values in order and consumes exactly the bytes written.",
  ["inputs", "histories"], "every value of every loggable type, and every sequence of types",
  "The tests round-trip one value per type; an unserialised field shows only when it differs from its default.",
  ["common/logging/serialize.h", "common/logging/serialize.cxx", "common/logging/log_writer.h", "common/logging/log_reader.h"],
  [("per-type serialise/deserialise pairs", "common/logging/serialize.cxx and the Type::serialize members")])
p("L02", "Reading a log replays what was written, in time order",
  "Reading a log delivers to each registered stream exactly the messages written to it, each once, complete and with its time, in non-decreasing time order across all streams and in written order within a stream, and nothing of streams nobody registered for. The same holds when the log amends another one: streams that both provide come from the amending log. The log's reported start and end are the earliest and latest of those given when the logs were opened and closed.",
  ["histories"], "every set of streams and keys, interleaving of messages and times, chain of amended logs, and subset of callbacks",
  "Merging depends on the interleaving of times and on which streams end first; the tests write two streams in step.",
  ["common/logging/log_writer.h", "common/logging/log_writer.cxx", "common/logging/log_reader.h", "common/logging/log_reader.cxx"],
  [("stream files and time merge", "Logger, LogReader::read / getNext")])
p("L03", "The self-description stored with a log matches the bytes logged",
  "For every loggable type and combination of columns, the format description written beside a stream describes exactly the layout of the bytes of each record: total size, field names, order and element types, so that a reader which knows only the description recovers every number.",
  ["inputs"], "every combination of loggable column types, names and values",
  "Tests compare descriptions with literals written by the same hand; whether they match the bytes needs decoding with the description alone.",
  ["common/logging/log_format.h", "common/logging/log_format.cxx", "common/logging/log_reader.py", "common/logging/serialize.cxx"],
  [("format descriptors vs. serialisers", "logging::format / makeFormat")])

# ---------------------------------------------------------------- models
p("I01", "Inertial preintegration equals direct integration, however it is divided",
  "Preintegrating any sequence of inertial samples gives the relative motion that step-by-step integration of rigid-body kinematics with the same samples and biases gives, and applying it to a start state with gravity predicts the end state of that motion. Splitting an interval at any time and integrating the two parts gives factors that cover the interval without gap or overlap, each equal to integrating its own samples afresh, and the residual at the predicted end state is zero.",
  ["inputs", "histories"], "every sample sequence (rates, irregular spacing), bias, start state and split time",
  "Accumulated relative motion and splits at sample times, between samples and at the ends need generated sequences and an independent integrator.",
  ["models/imu_model.cxx", "models/imu_model.h", "models/imu_state.cxx"],
  [("preintegration, split", "ImuModel::integrate / finished / split / computeEndStateAnd...")])
p("I02", "Inertial factor sensitivities are true derivatives, to first order in bias",
  "The derivatives the inertial factor reports with respect to start and end pose, velocity and bias are the derivatives of its residual, its propagated covariance is symmetric, positive semi-definite and grows with the interval as linearised error propagation gives, and correcting for a small change of bias reproduces re-integration with that bias up to second order. Copied error states are independent values.",
  ["inputs", "histories"], "every sample sequence, state, bias and small bias change",
  "A wrong sensitivity can cancel at hover-like states that tests use.",
  ["models/imu_model.cxx", "models/imu_model.h"], [("bias and state Jacobians, covariance propagation", "ImuModel")])
p("G01", "Pseudorange and range-rate predictions and sensitivities match the physics",
  "The pseudorange/range-rate residual is the whitened difference between measured and predicted values, the prediction being the light-time distance to the satellite plus Earth-rotation, atmosphere and clock terms of that constellation, and its time derivative. Every reported derivative (pose, velocity, clock, switch, reference frame, lever arm) is the derivative of the residual for any measurement covariance.",
  ["inputs", "configurations"], "every satellite geometry, receiver pose, velocity, clock, lever arm and measurement covariance",
  "Tests use one geometry and a diagonal covariance.",
  ["models/prange_model.cxx", "models/prange_model.h"], [("residual and Jacobians", "PseudorangeModel")])
p("G02", "Relative carrier-phase predictions and sensitivities match the physics",
  "The relative carrier-phase residual vanishes when the phase change between two epochs equals the change in light-time distance and clock expressed in carrier cycles, and is scaled by its standard deviation and switches. Every reported derivative is the derivative of the residual.",
  ["inputs"], "every pair of epochs, geometry, receiver poses, clocks, switches and lever arm",
  "Tests use two hand-crafted cases.",
  ["models/relative_carrier_phase_model.cxx", "models/relative_carrier_phase_model.h"], [("residual and Jacobians", "RelativeCarrierPhaseModel")])
p("G03", "Clock-dynamics and pose-prior factors whiten the right error",
  "The clock-dynamics residual is the whitened change of clock bias beyond what the mean of the two drifts explains, of drift and of switch between two epochs, and is zero exactly for constant drift and switch; the pose residual is the whitened logarithm of the relative transform from the reference pose. Every reported derivative is the derivative of the residual, for any covariance.",
  ["inputs"], "every clock state, interval, switch value, pose and covariance",
  "Tests evaluate a handful of states with simple covariances.",
  ["models/gnss_dynamics_model.cxx", "models/pose_error_model.cxx"], [("residual and Jacobians", "GnssDynamicsModel, PoseErrorModel")])

# ---------------------------------------------------------------- filter
p("K01", "The filter's estimate does not depend on measurement arrival order",
  "Any arrival order of the same set of inertial, position and satellite measurements that the filter accepts leaves it with the same state, covariance and history as arrival in time order: late measurements are folded in by rewinding, and every accepted measurement influences the estimate exactly once. Measurements of different kinds at one instant are likewise applied once each in one fixed order.",
  ["histories", "schedules"], "every permutation, delay pattern and set of coincident timestamps of a measurement history within the rewind horizon",
  "The tests feed a few delays and count calls; equivalence over all orders needs generated schedules compared with the in-order run.",
  ["core/ekf/rtk_ekf_estimator.cxx", "core/ekf/rtk_ekf_estimator.h"], [("rewind and roll", "RtkEkfEstimator::addMeasurement / rewind / rollFilter")])
p("K02", "The filter's history stays ordered, bounded and within its horizon",
  "After any sequence of measurement arrivals, stored states and measurements are each in time order, the newest state is at the newest processed measurement, a measurement older than the oldest rewindable state is refused without changing the estimate, and no accepted measurement inside the horizon is dropped. Buffers never exceed their capacity, a measurement that is not finite or does not fit the filter is refused likewise, and an arrival of measurements of physical magnitude, with a usable orbit for each satellite, never makes the program stop while the filter's uncertainty is bounded.",
  ["histories", "fault_sequences"], "every sequence of arrival times, including stale, duplicate and very many measurements",
  "Buffer front movement and stale refusal interact over hundreds of arrivals.",
  ["core/ekf/rtk_ekf_estimator.cxx", "core/ekf/rtk_ekf_estimator.h"], [("buffers and horizon", "RtkEkfEstimator")])
p("K03", "Generated sparse filter arithmetic equals textbook dense Kalman arithmetic",
  "For any filter description the generator accepts, and any current number of variable-size states and measurements, generated covariance propagation, measurement update, and gating equal the dense textbook formulas on the corresponding dense matrices, with the state corrected against the residual (so that it decreases), and the covariance stays symmetric and positive semi-definite. A refused (gated or empty) or monitoring-only measurement changes neither state nor covariance.",
  ["programs", "inputs", "histories"], "every filter description (states, inputs, measurements, sparsity, variable sizes), every active size, every matrix value",
  "The generated self-tests use one random matrix at minimum, middle and maximum size with all sizes tied together.",
  ["core/ekf/ekf_gen/ekf_gen.py", "core/ekf/ekf_gen/ekf_gen_templates.py", "core/ekf/ekf_gen/ekf_gen_state.py", "core/ekf/ekf_gen/ekf_gen_matrix_manip.py"],
  [("code generation", "core/ekf/ekf_gen/*.py")])
p("K04", "The RTK filter's model derivatives and predictions match its physics",
  "The filter's motion model is strap-down inertial kinematics with bias and clock drift, each measurement residual is measured minus predicted for that measurement's own constellation and satellite pair, and the Jacobians of dynamics, input noise and measurements are the derivatives of those functions, for every number of satellites in use.",
  ["inputs", "configurations"], "every state, input, constellation mix and number of satellites",
  "Tests use one all-GPS setup of maximum size.",
  ["core/ekf/rtk_ekf_impl.cxx", "core/ekf/rtk_ekf.yaml"], [("model functions and Jacobians", "core/ekf/rtk_ekf_impl.cxx")])
p("K05", "Filter states behave as manifold elements and copies are faithful",
  "For generated states and error states of any active size: adding an error and taking the difference are inverse, adding zero is the identity, the difference of a state with itself is zero, and scaling and adding error states is linear. Copying or assigning states, error states and history snapshots reproduces every component, including time and active sizes, independently of the original.",
  ["inputs", "programs"], "every state, error, active size, and filter description",
  "Box-plus tests use fully sized random states; copies are never compared.",
  ["core/ekf/ekf_gen/ekf_gen_state.py"], [("generated State/ErrorState", "core/ekf/ekf_gen/ekf_gen_state.py")])
p("K06", "Filter results depend only on their inputs, never on leftover memory",
  "Propagation, measurement update and model evaluation give bit-for-bit the same results, and accept or stop alike, whatever the previous contents of unused memory, for every number of active satellites and held ambiguities.",
  ["inputs", "fault_sequences"], "every state and measurement size below maximum and every content of uninitialised storage",
  "Leftover values are benign on a fresh stack; only poisoning the unused parts exposes reads of them.",
  ["core/ekf/rtk_ekf_impl.cxx", "core/ekf/ekf_gen/ekf_gen_templates.py", "common/matrix_defs.h"], [("partially used fixed-size buffers", "generated update/predict code")])
p("K07", "Generating a filter is deterministic and honours the description",
  "Generating code twice from the same description gives identical filter code, whatever the process's hash seed or directory, and the declared order of states, sizes and arguments is the order of the generated interface. An invalid description is refused rather than producing code that computes something else.",
  ["programs", "configurations"], "every valid description and every hash seed",
  "One build generates once with one hash seed.",
  ["core/ekf/ekf_gen/ekf_gen.py", "core/ekf/ekf_gen/ekf_gen_state.py", "core/ekf/ekf_gen/ekf_gen_utils.py"], [("argument and member order", "core/ekf/ekf_gen/*.py")])
p("K08", "Symbolic simplification preserves the value of every matrix expression",
  "Any expression built from symbolic matrices, block matrices, identities, zeros, sums, products, negations and transposes has the same numeric value after simplification, factoring, block multiplication and transposition as the expression written out, and its rendered code computes that value.",
  ["programs", "inputs"], "every expression tree, block structure and numeric substitution",
  "The tests simplify half a dozen fixed expressions.",
  ["core/ekf/ekf_gen/symb_algebra.py", "core/ekf/ekf_gen/symb_matrix.py", "core/ekf/ekf_gen/symb_block_matrix.py"], [("rewrite rules", "core/ekf/ekf_gen/symb_*.py")])
p("K09", "Logged filter residuals are the innovations of the measurements applied",
  "Every measurement that the filter applies leaves one record in the residual stream of its kind (observations: one per satellite), stamped with the measurement's time, holding the measurement as received, the prediction from the state just before the update and their difference, and naming the right satellite; measurements that are refused or have nothing to apply leave none. When measurements arrive late, no record belongs to a measurement that was not accepted, and the last record of each shows the prediction with every earlier measurement applied. Unused places of fixed-size records are not-a-number.",
  ["inputs", "histories"], "every sequence of measurements, in or out of order, valid or not",
  "Tests never give the filter a logger; tuning and fault finding rest on these streams.",
  ["core/ekf/rtk_ekf_estimator.cxx"], [("residual logging", "RtkEkfEstimator::handlePointPos, handleFixAndHold, handleObsMeas, init")])

# ---------------------------------------------------------------- receiver protocol
p("P01", "The receiver parser finds exactly the messages in a byte stream",
  "Whatever bytes arrive and however they are cut into pieces, every listener receives, in order and once each, the payload of every frame with a correct checksum in the stream that it subscribed to, and nothing else: noise, damaged, cut-off and over-long frames are skipped (the search resumes behind the bytes already read) and do not stop the messages that follow. Frames without a payload are messages too. The count of received messages and the mid-message flag agree with the stream, and messages sent by this end are received unchanged by another.",
  ["inputs", "histories", "fault_sequences"], "every byte stream, division into pieces, and set of subscriptions",
  "The parser has no tests; serial data is arbitrarily cut, damaged and resynchronised.",
  ["parsers/ubx/ubx.cxx", "parsers/ubx/ubx.h"], [("receive state machine", "Ubx::readCb, decodeMessage")])
p("P02", "Commands to the receiver are the frames its interface description defines",
  "Every configuration command (ports, rates, messages, dynamic mode, base and rover roles, survey-in, configuration keys) sends exactly the frames of the interface description for its arguments, in the old or new form according to the protocol version the receiver reported last, with correct lengths and checksums and with reserved fields zero, whatever was sent or received before. The version and module name are read from any well-formed version reply and from nothing else.",
  ["inputs", "histories"], "every command, argument and history of commands and replies",
  "The driver has no tests; its message memory is shared between commands.",
  ["parsers/ubx/ubx.cxx", "parsers/ubx/ubx.h", "parsers/ubx/ubx_defs.h"], [("commands and version reply", "Ubx::set*, disableNmea, enableMessage, startSurveyIn, getVersion")])
p("P03", "Every field of a received message reads as the bytes the description assigns it",
  "For each supported message (raw measurements, navigation subframes, position, velocity, relative position, survey-in, port and buffer monitoring, acknowledgements) each field and each repeated block, up to the most a message can hold, has the value of the little-endian bytes at the offset, width and sign of the interface description. Satellite numbers and signal numbers resolve to the constellation and signal the description lists, and unlisted ones to none.",
  ["inputs"], "every payload of the supported messages and every satellite and signal number",
  "The layouts are packed structures without tests; one misplaced member shifts all that follow.",
  ["parsers/ubx/ubx_defs.h", "parsers/ubx/ubx.cxx"], [("message layouts and numbering", "UbxMessage, sysId, sigId")])
p("P04", "Gathering from a receiver logs exactly what the receiver reported",
  "During a gathering session the receiver is asked for its version, subframes and raw measurements; every measurement of a supported signal is logged once, in order, with its satellite, true carrier frequency (GLONASS channel included), pseudorange, carrier phase, range rate in metres per second and time of reception, and measurements of other signals are not logged; every ephemeris completed by the subframes of one satellite is logged as transmitted if its reference time is within two hours of the clock and refused otherwise, however the messages of different satellites and constellations interleave.",
  ["histories", "schedules"], "every interleaving of measurement and subframe messages from any satellites",
  "The program has no tests and is not even built without the receiver library.",
  ["tools/gather_ephemeris.cxx"], [("listeners", "ObsListener, Accumulator, verify")])

# ---------------------------------------------------------------- integer ambiguity
p("A01", "Integer ambiguity resolution returns the true least-squares integers, best first",
  "For any float ambiguity vector and positive-definite covariance, the resolved candidates are the integer vectors with the smallest, second smallest, and so on, covariance-weighted distance to it, with their exact distances, in increasing order, as exhaustive enumeration finds them. The answer shifts with integer shifts of the input and permutes with it.",
  ["inputs"], "every dimension, number of candidates, correlation structure and float vector",
  "Tests compare three stored examples; pruning mistakes show only on particular covariances.",
  ["core/solver/lambda.cxx", "core/solver/lambda.h"], [("LAMBDA search", "lambda, search")])
p("A02", "The decorrelating factorisation is exact and integer-preserving",
  "For any positive-definite covariance the factorisation reproduces the matrix with a unit triangular factor and positive diagonal, and the decorrelating transform is an integer matrix with determinant plus or minus one under which the transformed factors still reproduce the transformed covariance, with no adjacent pair left out of order and no factor larger than one half. Splitting a number gives its integer part and the rest, whatever its size. Sorting helpers return true permutations that order their input.",
  ["inputs"], "every dimension and conditioning of covariance and every input to be sorted",
  "Tests use three stored matrices.",
  ["core/solver/lambda.cxx", "core/solver/lambda.h"], [("LTDL, integer Gauss transformations, permutations", "LTDL, reduction, permute, argsort")])

# ---------------------------------------------------------------- managers and simulation
p("N01", "The satellite registry holds one up-to-date entry per satellite",
  "After any sequence of ephemeris arrivals from any constellations, the registry has exactly one entry for each of the most recently first-seen satellites up to its capacity, reachable by constellation and number, each holding every ephemeris delivered for it since it was added, and pairs of constellation and number are never confused with one another.",
  ["histories"], "every sequence of ephemeris arrivals over constellations and satellite numbers, beyond capacity included",
  "Tests add a few satellites of one constellation.",
  ["core/sat_manager.cxx", "core/sat_manager.h"], [("registry", "SatelliteManager")])
p("V01", "Simulated sensors are consistent with the simulated truth",
  "With noise switched off, simulated inertial samples are the true specific force (body-frame acceleration including the centripetal part, less gravity) and rate plus the sensor's bias, which wanders by the configured walk alone, and simulated satellite observations equal the light-time range, range rate and carrier cycles (up to the satellite's fixed integer offset) that the true position, velocity and clock imply. With noise switched on it has the configured deviation. Samples are emitted no faster than the configured rate and bear the requested instants, each logged ephemeris is handed out once, in log order, not before its time, until none is left, and the same seed and inputs give the same sequence.",
  ["inputs", "histories"], "every trajectory, sample-time sequence, rate and option set",
  "The simulation's sensors have no unit tests of their own.",
  ["sim/sensors/imu.cxx", "sim/sensors/gnss.cxx", "sim/sim.cxx"], [("sensor models", "sim/sensors/*")])
p("V02", "Controllers saturate, reject wind-up and track as designed",
  "The output of the controller never exceeds its saturation limit, equals the unsaturated law of its gains when within it (the derivative term being that of the low-pass filtered input, in step with real time across pauses), responds to the sign of the error (the integral term may rest while it is not being updated), and after any long period of saturation its integrator does not keep the output saturated once the error reverses. The waypoint follower commands speed and turn rate within its limits, turns toward the waypoint (facing away, it turns rather than drives off), advances through the waypoints in order and cyclically, and starts at the first. The car's controller drives its wheels so that the force on the car is the output of the velocity law and the turning moment follows the turn-rate law, however large its wheels, axle and track are.",
  ["inputs", "histories"], "every gain set, limit, and sequence of inputs and time steps",
  "Tests only run the loop and log it.",
  ["sim/controllers/pid.cxx", "sim/dynamics/car.cxx"], [("PID and waypoint logic", "controllers::PID, SimCar::WaypointFollower")])
p("V03", "Simulated vehicle motion follows from the applied wheel torques",
  "The simulated vehicle's state after any sequence of steps is the integral of rigid-body motion under the commanded wheel torques (forces and turning moment in the right direction and proportion), time advances exactly as stepped, and undisturbed motion keeps its body velocity. Dividing a step does not change a constant-velocity motion.",
  ["inputs", "histories"], "every vehicle parameter set, state, torque and step sequence",
  "Tests only run the loop and log it.",
  ["sim/dynamics/dynamics.cxx", "sim/dynamics/car.cxx"], [("integration", "Dynamics::step, SimCar::compute_wrench")])

p("V04", "The simulation program does what its configuration says and logs the run",
  "Run with any configuration file, the simulation program uses every option the file gives and the documented defaults for those it leaves out, and refuses an unusable configuration; the log it writes holds exactly the ephemerides, input samples, observations and true states of a simulation run with those options, each once, in order and stamped with its time, from the start time for the configured duration.",
  ["inputs", "configurations", "histories"], "every configuration and ephemeris log",
  "No test runs the program; an option that is read under another name silently keeps its default.",
  ["sim/simulate.cxx", "sim/sim.cxx"], [("option reading, main loop and logging", "simulate main, sim::Sim")])
p("Q01", "Post-processing a log is running the filter over it in time order",
  "Post-processing any log of ephemerides, inputs and observations yields, at every logged step, the state and covariance that the filter reaches when driven directly with the same ephemerides, inputs and observation epochs in time order from the configured start (pose, heading and antenna position) or the true start, with the configured noise; nothing outside the configured time range is used, and with noise-free inputs and observations it stays at the truth.",
  ["inputs", "configurations", "histories"], "every log, configuration and start",
  "The program has no tests, and small mistakes in its frames or order of events only show as a less accurate result.",
  ["tools/post_process.cxx"], [("start, event order, filter driving", "post_process main")])
p("Q02", "Verifying a log reports every ephemeris and flags exactly the unusual ones",
  "Run on any log, the verification program reports each logged ephemeris of the three constellations exactly once, in order, with its constellation, satellite and age (time of reception less reference time), and marks it as unusual if and only if the reference time is more than two hours away on either side; other records are ignored.",
  ["inputs"], "every log of ephemerides",
  "The program has no tests; a constellation read through another's callback or a one-sided age check passes unnoticed.",
  ["tools/verify_ephemeris.cxx"], [("callbacks and age check", "verify, main")])

p("F01", "Graph building blocks stand for exactly the variables they were given",
  "A factor lists, returns by position and names exactly the variables it was built from, in order and without copies, so that each always sees their current values, even when one variable has several roles; every variable shows the same numbers through its member and through the generic interface of a solver. A graph starts with the node its options describe and all switches on, whatever happens to the options afterwards.",
  ["inputs", "histories"], "every set of variables, every assignment of them to factors, and every history of changes",
  "Tests bind each factor once to distinct variables of one value.",
  ["core/states/base.h", "core/factors/base.h", "common/hetero_collection.h", "core/factor_graph.cxx"], [("aliasing", "HeteroCollection, StateTemplate"), ("first node", "FactorGraph")])
p("X01", "Common helpers keep their contracts for every input",
  "A fixed integration step equals the classical fourth-order Runge-Kutta step for any system; random fills cover exactly the range or distribution they name; results hold either a value or the first error, and propagating one evaluates its expression once. Strings are divided and stripped as named, output arguments write to exactly what they stand for and refuse another size, messages appear if and only if their condition and level ask for it and failed checks stop the program, and the progress display shows the fraction, rate and durations that passed. Creating and removing directories touches nothing else.",
  ["inputs", "histories"], "every input of each helper and every history of progress",
  "Tests call each helper with one or two friendly values and print rather than compare.",
  ["common/math/rk4.h", "common/random.h", "common/error.h", "common/error_result.h", "common/out.h", "common/print.cxx", "common/check.cxx", "common/defs.h", "utils/split_string.cxx", "utils/strip_string.cxx", "utils/progress_bar.cxx", "utils/file.h"], [("helpers", "RK4, randomUniform, ErrorResult, MatOut, info/warn/error, ProgressBar")])
p("X02", "Matrix helpers and numerical derivatives equal their definitions",
  "Stacking, repeating and cross-product matrices hold exactly the numbers their names say, tests for finite and undefined values answer for every element, values are limited to the interval given, and angles convert exactly. Numerical derivatives of functions between vectors, rotations and rigid transforms equal the true derivatives on the side asked for, to the accuracy of their step, and differences undo steps on the same side.",
  ["inputs"], "every matrix, every group element and every smooth function of known derivative",
  "Tests use one random point and the left and right forms agree where they are usually evaluated.",
  ["common/matrix_defs.h", "common/numerical_jacobian.h", "common/has_plus.h", "common/defs.h"], [("derivatives", "compute_jac, left_jac..right_jac3, perturb, difference"), ("stacking", "hstack, vstack, tile, skew")])

ids = [x["id"] for x in P]
assert len(set(ids)) == len(ids)
for x in P:
    assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")
