"""The checks: what each one builds and runs."""
import argparse, json, os, subprocess, sys, traceback
from . import build as B
from .core import Ctx, VERIF

ASAN = ["-fsanitize=address,undefined", "-fno-sanitize-recover=undefined", "-g1"]

# property -> dict(harness, mods, rule, ...)
C = {}

# reasons for properties that are not claimed
NOT_APPLICABLE = {}

def c(pid, harness, mods, rule, assumptions=(), technique="property-based testing: generated inputs, reference model, shrinking",
      note="Exploration: holds on every generated case; trusts the oracle in harness/%s.", **kw):
    if "%s" in note:
        note = note % harness
    C[pid] = dict(harness=harness, mods=mods, rule=rule, assumptions=list(assumptions), kw=kw,
                  technique=technique, note=note)

c("T01", "t01_compare.cc", ["base"], "pairs of instants biased to equal seconds, one-nanosecond and half-resolution neighbourhoods; non-trivial: the two instants share their second or differ by at most 1 s and are not identical")
c("T02", "t02_arith.cc", ["base"], "instants of any era combined with durations biased to whole-second boundaries; non-trivial: a non-zero duration, a difference of distinct instants, an unnormalised pair, or a history of more than 3 steps")
c("T03", "t03_scales.cc", ["base"], "week/time-of-week, calendar and time-of-day values biased to boundaries; non-trivial: a sub-second part, a week beyond 2047, or a nearest day that is not the reference's day")
c("B01", "b01_ring.cc", [], "histories of mixed operations on buffers of capacity 1 to 99 compared with std::deque after every step, elements that count their own lifetimes; non-trivial: the buffer was full more than once or the history is longer than two laps", flags=ASAN, opt="-O1")
c("B02", "b02_config.cc", ["base", "utils", "backward"], "generated configuration trees (nested to depth 3) and sequences of up to 12 look-ups of right and wrong type and length, required and optional, followed by a look-up of every entry; non-trivial: at least two values found, one of them nested", flags=ASAN, opt="-O1")

NAV = ["base", "ephemeris", "utils"]
# misaligned 32-bit reads are how the decoders read receiver words; not what E07 is about
ASAN_NAV = ASAN + ["-fno-sanitize=alignment"]
c("E01", "e01_bits.cc", [], "fields of 1 to 56 bits (fixed width), 1 to 32 (run-time width, writes, sign-magnitude) at any offset of exactly sized buffers; non-trivial: offset or width not a multiple of 8", flags=ASAN_NAV, opt="-O1")
c("E02", "e02_codes.cc", NAV, "random messages and Galileo pages / GLONASS strings with generated error patterns (bursts to 24 bits, 1 to 3 flips); non-trivial: more than one bit wrong, or a message longer than the checksum")
c("E03", "e03_gps.cc", NAV, "random field values including the extremes of every field, subframes in any order with foreign and repeated subframes; non-trivial: not in order 1,2,3, reference time in another week than the transmission, or several issues or completions")
c("E04", "e04_gal.cc", NAV + ["rtklib"], "random field values including the extremes, words in any order, histories with changeovers and corrupted pages; also compared with the bundled RTKLIB decoder; non-trivial: words out of order, or several issues with a completion")
c("E05", "e05_glo.cc", NAV, "random field values including the extremes and negative zero, strings in any order, histories with superframe changes; non-trivial: almanac day differs from the current day, negative fields, several issues with a completion")
c("E06", "e06_issue.cc", NAV, "broadcast-like streams of up to 60 messages with up to 5 issues, loss, jumps and (Galileo) another satellite's words; non-trivial: an ephemeris completed after a changeover")
c("E07", "e07_robust.cc", NAV, "sequences of up to 30 blocks, valid messages mutated (bits, truncation, extension) or random bytes of 0 to 100, under address and undefined-behaviour sanitizers; non-trivial: at least one block derived from a valid message", flags=ASAN_NAV, opt="-O1")

SAT = NAV + ["satellite", "rtklib"]
c("S01", "s01_almanac.cc", SAT, "up to 30 arrivals over 4 to 201 reference times with repeats, reordering and sub-second spacing, three look-ups after each; non-trivial: at least 3 distinct reference times and a reordering or repeat")
c("S02", "s02_kepler.cc", SAT, "GPS and Galileo orbits (eccentricity 0 to 0.3, any orientation, corrections 0 to extreme, toc within 2 h of toe, any week) at any instant of the validity interval, compared with a long-double ICD implementation, its difference quotients, and RTKLIB; non-trivial: eccentric orbit off its reference time")
c("S03", "s03_glonass.cc", SAT, "near-circular GLONASS states of any orientation, up to 5 queries within 30 min of either sign into one output object, compared with a fine-step long-double integration and RTKLIB; non-trivial: more than one distinct query")
c("S04", "s04_lighttime.cc", SAT, "receivers anywhere from -3 km to 2000 km, satellites of the three constellations and straight-line satellites at 7000 to 50000 km, sequences of updates of one cache; non-trivial: several updates, or any straight-line or direction case")
c("S05", "s05_atm.cc", SAT, "positions over the globe at -100 km to 20000 km with the model limits hit exactly, directions incl. horizon and zenith, any time of week; compared with independent implementations and RTKLIB; non-trivial: above the horizon and inside the height limits")
c("W01", "w01_wgs84.cc", ["base", "utils"], "latitudes/longitudes biased to poles, equator, date line, heights -5 km to 50000 km, local points to 10000 km; non-trivial: off the equator and the surface, or off the axis")

c("M01", "m01_rot.cc", [], "rotation vectors with angles biased to 0, the series thresholds and the half-turn, any axis, both quaternion signs, direction pairs biased to parallel and opposite, products of up to 400 factors; reference: long-double matrix exponential; non-trivial: not the identity")
c("M02", "m02_rigid.cc", [], "rigid transforms with rotations as in M01 and translations 0 and 1e-9 to 1e7, views, copies, aliased products, products of up to 300 factors; reference: long-double homogeneous matrices and their exponential; non-trivial: not the identity")
c("M03", "m03_deriv.cc", [], "rotation vectors biased to every series threshold and the half-turn, translations 1e-6 to 1e7, both sides and both quaternion signs; reference: long-double series of the left and right Jacobians and their inverses, and analytic rules for the numerical differentiation; non-trivial: not the identity")

LOG = NAV + ["logging"]
c("L01", "l01_roundtrip.cc", LOG, "sequences of up to 12 values over 37 loggable types with extremes, infinities and text-sensitive bytes, also run-time-sized matrices, maps, blocks, transposes, products, quantised times and reused destinations; non-trivial: more than one value, one of a compound type, or any of the latter", flags=ASAN, opt="-O1")

c("L02", "l02_replay.cc", LOG, "chains of 1 to 3 logs amending each other, up to 5 streams of 5 kinds with 30 possible keys, up to 60 messages each with equal and nanosecond-apart times, any subset subscribed, opened by four forms of path, read(), maintenance callbacks with early exit, getNext; non-trivial: at least two streams and five delivered messages", flags=ASAN, opt="-O1")

c("L03", "l03_describe.cc", LOG, "records of up to 6 columns over 37 types with names that include the description's own words, and logs of up to 4 streams written by the Logger, decoded by description alone by an independent reader and by the repository's Python reader; non-trivial: more than one column or record",
  flags=["-DVT_PY_READER=\"%s\"" % os.path.join(VERIF, "harness", "l03_reader.py"), "-DVT_REPO_DIR=\"%s\"" % B.REPO], opt="-O1")

IMU = ["base", "models"]
c("I01", "i01_preint.cc", IMU, "sequences of 2 to 60 inertial samples, regular or irregular (0.12 to 80 ms), rates to 10 rad/s, biases, any start state; splits (up to 4 in a row) on, near (to 150 us) and between samples; reference: long-double step-by-step integration and a 64 times finer one; non-trivial: rotating, biased, or a cut between samples", flags=ASAN, opt="-O1")

c("I02", "i02_sens.cc", IMU, "inertial intervals as in I01 with start and end poses anywhere, rotation errors to 2.5 rad, changed biases and every subset of requested derivatives; reference: long-double central differences along the manifold, long-double covariance recursion, re-integration with the changed bias; non-trivial: rotating with a non-zero rotation error, or a bias change whose effect is above the second-order bound", flags=ASAN, opt="-O1")

MODEL = SAT + ["models"]
c("G01", "g01_prange.cc", MODEL, "satellites of the three constellations at any instant of validity, receivers anywhere to 1000 km, poses, lever arms to 10 m, frames, clocks to 1 ms, switches 0 to 1.2, diagonal and correlated covariances, every subset of derivatives; reference: long-double light time, derivatives by long-double central differences along the manifold; non-trivial: moving, with a lever arm, clock offset or correlated covariance", flags=ASAN_NAV, opt="-O1")

c("G02", "g02_relcp.cc", MODEL, "satellites of the three constellations on every carrier, two epochs 0 to 120 s apart, independent receiver poses, lever arms to 10 m, clocks to 1 ms, switches 0 to 1.2, weights 0.01 to 1000, every subset of derivatives, mismatched observations; reference: long-double light time and central differences along the manifold; non-trivial: lever arm and both switches on", flags=ASAN_NAV, opt="-O1")
c("G03", "g03_priors.cc", MODEL, "clock states to 1 ms with intervals -5 s to a day, any switches and weights, every subset of derivatives; pose priors with relative rotations to 3 rad and translations to 1 km; reference: long-double closed forms and central differences along the manifold; non-trivial: drifting clock, or a turn and a shift", flags=ASAN_NAV, opt="-O1")

c("A01", "a01_lambda.cc", ["base", "core", "utils"], "covariances of dimension 1 to 10 made as T Q0 T^t from a well-conditioned or diagonal Q0 and a random unimodular T, float vectors anywhere, on, near and half-way between integers, shifts to 1e11, permutations, 1 to 8 candidates; reference: listing every integer vector of the box around the ellipsoid (up to 300000) in the coordinates of Q0; also dimensions 7 to 24 made of groups of up to three, listed one by one and merged; non-trivial: listed, and more than one dimension", flags=ASAN_NAV, opt="-O1")
c("A02", "a02_ltdl.cc", ["base", "core", "utils"], "covariances as in A01 of dimension 1 to 20, indefinite ones, sequences of up to 12 single transformations, vectors with ties to sort, magnitudes to 1e17 to split; reference: long-double recomposition; non-trivial: more than one dimension, or a transform that is not the identity", flags=ASAN_NAV, opt="-O1")

c("F01", "f01_graph.cc", ["base", "core", "models", "satellite", "ephemeris", "utils", "backward"], "graphs of 6 to 18 variables of all kinds, histories of up to 30 steps that set variables through their members or the generic view and build and drop factors of all kinds, also with one variable in several roles; up to 5 graphs started from options that are changed or destroyed afterwards; non-trivial: a factor built and a variable changed, or several graphs", flags=ASAN, opt="-O1")
c("X01", "x01_helpers.cc", ["base", "utils", "backward"], "linear and non-linear systems of dimension 1 to 6 stepped once, ranges of any width to fill at random, chains of calls of which any may fail, strings of any bytes, blocks of matrices written through out-arguments, messages of every level and condition, progress histories under a controlled clock; non-trivial: by sub-check, the general case (several dimensions, a failing call, several separators, a partly filled bar)", flags=ASAN, opt="-O1")
c("X02", "x02_matrix.cc", ["base"], "matrices of 1 to 7 rows and columns stacked and repeated, vectors of any size, special values anywhere; rotations and rigid transforms of all four classes with functions whose derivatives are known, steps of 1e-8 to 1e-2; non-trivial: by sub-check, the general case (not square, a special value, a value outside the limits, non-zero coefficients)")
c("N01", "n01_registry.cc", SAT + ["core", "utils"], "sequences of up to 250 ephemerides from the three constellations with 4 to 256 satellite numbers and up to 12 reference times, look-ups after each and of every number at the end, compared with a model registry; states compared with separately kept satellites; non-trivial: an eviction, several constellations or several satellites", flags=ASAN_NAV, opt="-O1")

SIM = SAT + ["sim", "logging", "utils"]
c("V01", "v01_sensors.cc", SIM, "up to 400 samples at up to 1000 Hz from any motion with and without noise and bias walk; ephemeris logs of up to 13 ephemerides of any of the constellations written with the repository's logger, any receiver site, lever arm and clock, requests on, before and after the interval; whole simulations of up to 76 steps with all callbacks; non-trivial: several emitted samples with held-back ones, noise or several satellites", flags=ASAN_NAV, opt="-O1")
c("V02", "v02_control.cc", ["base", "sim"], "gain sets with any of the terms absent, limits 0.01 to 1000 or none, histories of up to 60 (wind-up: 400) steps; pairs of cars that differ only in size under the same commands; lists of 1 to 6 waypoints, sequences of up to 30 poses at, near and far from the current one and facing any way, in memory with any previous content; non-trivial: several unlimited steps of a full controller, more than 10 limited steps, a moving input, or a waypoint reached", flags=ASAN, opt="-O1")
c("V03", "v03_vehicle.cc", SIM, "vehicle parameters over three decades, torque histories of up to 60 steps of 1 ns to 0.2 s, straight, turning and coasting, coasting divided into up to 30 pieces; reference: long-double integration with 16 sub-steps and an error bound for the method's order; non-trivial: turning over more than 3 steps, or turning and moving while coasting", flags=ASAN_NAV, opt="-O1")

c("V04", "v04_simulate.cc", SIM, "the whole simulation program with configurations that give or leave out each option, ephemeris logs of any of the constellations; its log compared record by record with the simulation run with the same options; non-trivial: several records of each kind and several options given", flags=ASAN_NAV, opt="-O1", tools=[("sim/simulate.cxx", "simulate_main")])

c("Q02", "q02_verify.cc", SIM, "logs of up to 20 ephemerides of any of the constellations among other records, reference times within, just around and far beyond two hours on either side; the verification program run on them, its report compared line by line with what was logged; non-trivial: several ephemerides, some but not all unusual", flags=ASAN_NAV, opt="-O1", tools=[("tools/verify_ephemeris.cxx", "verify_main"), ("sim/simulate.cxx", "simulate_main")])
UBX = ["base", "ubx"]
c("P01", "p01_frames.cc", UBX, "byte streams of up to 14 pieces (frames of 0 to 2048 bytes of any class, damaged, cut off and over-long frames, garbage, payloads full of start bytes) delivered in pieces of 0 to 4000 bytes to up to 4 listeners, compared after every piece with a scan written from the interface description; messages sent by one end received by another; non-trivial: at least two messages and damage, an empty payload or several listeners", flags=ASAN_NAV, opt="-O1")
c("P02", "p02_commands.cc", UBX, "histories of up to 10 commands of every kind with any arguments, version replies of 0 to 10 extension strings (versions, module names of 1 to 26 characters, look-alikes) among other traffic, objects built in memory with any content; every frame sent compared byte by byte with the interface description; non-trivial: several commands and a version reply", flags=ASAN_NAV, opt="-O1")
c("P03", "p03_views.cc", UBX, "messages of 11 kinds with 0 to 60 repeated blocks and random or extreme bytes, several through one parser, every field compared with the bytes at the offset the interface description gives; every satellite and signal number; non-trivial: several messages or blocks", flags=ASAN_NAV, opt="-O1")

c("P04", "p04_gather.cc", UBX + ["ephemeris", "logging", "utils"], "the whole gathering program against a played receiver: up to 5 satellites of three constellations with up to 2 issues each, messages interleaved and cut anywhere, up to 3 messages of up to 60 observations of supported and unsupported signals, the machine's clock 2 h before and after the reference times; non-trivial: several observations and several ephemerides", flags=ASAN_NAV + ["-Dclock_gettime=vt_clock_gettime"], opt="-O1")

# comparing an instant with INVALID_TIME subtracts the most negative number; the wrap-around is harmless
ASAN_EKF = ASAN_NAV + ["-fno-sanitize=signed-integer-overflow"]
EKF = SAT + ["ekf", "core", "utils", "logging"]
RTK = ["core/ekf/rtk_ekf.yaml"]
c("K04", "k04_model.cc", EKF, "states anywhere on and off the Earth with 0 to 30 ambiguities, inputs to 20 m/s^2 and 5 rad/s, bundles of 1 to 30 observations of any mix of constellations; reference: long-double kinematics differentiated in time and along the manifold, and the effect of an update in closed form; non-trivial: moving and turning, several constellations, or a corrected state", flags=ASAN_EKF, opt="-O1", gen=RTK)

c("K01", "k01_order.cc", EKF, "histories of up to 25 measurements of four kinds in any order, coincident and 1 ns to 0.1 ms apart, and streams of up to 150 with delays per sensor over several horizons; the whole kept history compared with applying the accepted measurements in order by an independent loop; non-trivial: at least two late arrivals (streams: six)", flags=ASAN_EKF, opt="-O1", gen=RTK)
c("K02", "k02_horizon.cc", EKF, "sequences of up to 80 arrivals (floods: 400 at up to 1000 per second) in order, late, stale, repeated, after gaps, with non-finite values, wrong sizes, unknown satellites; all invariants after every arrival against a model of what was accepted; non-trivial: late arrivals and at least one refusal", flags=ASAN_EKF, opt="-O1", gen=RTK)

c("K09", "k09_residuals.cc", EKF, "histories of up to 25 measurements of four kinds in order and in any order, coincident and nearly so, with unusable ones (unknown satellites, non-finite values, wrong sizes) among them; the residual streams read back with the repository's reader and compared with the innovations of an in-order run, predictions from long-double kinematics; non-trivial: at least four records (out of order: two late arrivals)", flags=ASAN_EKF, opt="-O1", gen=RTK)

c("Q01", "q01_postprocess.cc", EKF + ["sim"], "the whole post-processing program over logs that the simulation program wrote (one or several constellations, with or without interference, given or true start, sparse or crowded epochs); its output log compared entry by entry with the estimator driven directly over the same inputs in time order and with the truth; non-trivial: at least several observation epochs of several satellites were used", flags=ASAN_EKF, opt="-O1", gen=RTK, tools=[("sim/simulate.cxx", "simulate_main"), ("tools/post_process.cxx", "post_main")])

from . import ekfcheck, k07, k08, pbt

def ekf_check(ctx):
    if ctx.prop == "K06":
        # the RTK filter itself, with its model functions
        ctx.run_harness(B.build("K06r", "k06_rtk.cc", EKF, gen=RTK, opt="-O1"))
    if ctx.prop == "K07":
        k07.check(ctx)
    ekfcheck.check(ctx)

PY = {"K07": k07.FNS, "K08": k08.FNS}

def ekf_replay(pid, path):
    with open(path) as f:
        if f.read(1) != "{":
            exe = B.build("K06r", "k06_rtk.cc", EKF, gen=RTK, opt="-O1")
            return subprocess.run([exe, "--replay", path, "--tmp", "/tmp"]).returncode
        f.seek(0)
        if "py" in json.load(f):
            return pbt.replay(PY[pid], path)
    return ekfcheck.replay(pid, path)

GEN_NOTE = "Exploration: holds on every generated description and case; trusts the oracle in harness/%s and the glue of lib/ekfdesc.py."
def cg(pid, rule):
    h = ekfcheck.HARNESS[pid]
    C[pid] = dict(harness=h, mods=[], rule=rule, assumptions=[], kw={}, custom=ekf_check, replay=ekf_replay, note=GEN_NOTE % h,
                  technique="property-based testing: generated filter descriptions, code generated, compiled and run on generated inputs against dense reference arithmetic, shrinking of description and inputs")
cg("K03", "filter descriptions of 1 to 7 states (vectors, quaternions, dual quaternions, rotation and rigid-body matrices, fixed and variable), 1 to 3 inputs and measurements with any sparsity, plus the repository's own; for each, active sizes 0 to maximum and random matrices, propagated, updated, gated and refused, compared with dense arithmetic; non-trivial: partly filled variable states or an applied update")
cg("K05", "filter descriptions as in K03; for each, states anywhere on the manifold with active sizes 0 to maximum, errors up to half a turn, copies, assignments, moves and snapshots compared component by component; non-trivial: several elements, a rotation or a partly filled variable state")
cg("K06", "filter descriptions as in K03 and the RTK filter with its models; the same history of propagations and updates run in memory filled with different patterns (zeros, ones, quiet NaN, large numbers) has to give the same bits; non-trivial: some variable-size part not full")

cg("K07", "filter descriptions as in K03; for each, every size, constant, metadata field, dense view, accessor and argument of the generated interface against the description, with active sizes 0 to maximum; the generator run again under other hash seeds, working directories and over other output, output compared byte by byte; descriptions with one mistake of 30 kinds, which have to be refused; non-trivial: several states or variable parts, a mutated description")

C["K08"] = dict(harness="", mods=[], assumptions=[], kw={}, custom=k08.check, replay=ekf_replay,
  note="Exploration: holds on every generated expression; trusts the exact modular matrix arithmetic of lib/k08.py and its reading of the rendered text.",
  technique="property-based testing: generated expression trees and block matrices, exact integer reference, shrinking",
  rule="expression trees to depth 5 over matrices of fixed and variable size (0 to 4), identities, zeros, numbers and symbols with sums, differences, products, multiples, transposes, negations, repeated sub-expressions and terms with common factors; block matrices of up to 3x3 blocks through up to 5 operations; the rendered text is evaluated exactly modulo a prime, and everything built before has to keep its text; non-trivial: a simplification rewrote the expression, several blocks, or operands which do not fit")

def build_check(pid):
    s = C[pid]
    return B.build(pid, s["harness"], s["mods"], **s["kw"])

def run_check(pid, tier, seed):
    s = C[pid]
    ctx = Ctx(pid, tier, seed)
    try:
        if "custom" in s:
            s["custom"](ctx)
        else:
            exe = build_check(pid)
            ctx.run_harness(exe)
        return ctx.finish(s["rule"], s["assumptions"])
    finally:
        ctx.close()

def setup():
    """Checks that the toolchain is there and that one harness builds (nothing it leaves is needed:
    every check builds what it runs)."""
    build_check("T01")
    print("setup: ok")
    return 0

def main(argv):
    if argv == ["--setup"]:
        return setup()
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("tier", nargs="?", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--replay")
    ap.add_argument("--build-only", action="store_true")
    a = ap.parse_args(argv)
    if a.prop not in C:
        print("no check for", a.prop)
        return 2
    try:
        if a.replay and "replay" in C[a.prop]:
            return C[a.prop]["replay"](a.prop, os.path.abspath(a.replay))
        if a.build_only and "custom" in C[a.prop]:
            return 0
        if a.build_only:
            build_check(a.prop)
            return 0
        if a.replay:
            exe = build_check(a.prop)
            return subprocess.run([exe, "--replay", os.path.abspath(a.replay), "--tmp", "/tmp"]).returncode
        return run_check(a.prop, a.tier, a.seed)
    except B.BuildError as e:
        print("BUILD ERROR", str(e)[-6000:])
        return 2
    except Exception:
        traceback.print_exc()
        return 2
