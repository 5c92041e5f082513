T = 'TLA+ spec model-checked with TLC; TLC-generated and random histories replayed into the real code, recorded traces validated by TLC'
NOTE = {
 'D01': (T, 'Exhaustive over all push/pop interleavings of small depth on the spec; conformance on thousands of generated histories with late, duplicate and malformed messages.'),
 'D02': (T, 'Exhaustive spec model; all histories up to depth 5 over small time sets plus random and fixed-rate streams replayed.'),
 'D03': (T, 'Exhaustive spec model; all packed histories up to depth 5 over small time sets plus random and fixed-rate streams with boundary offsets replayed.'),
 'D04': (T, 'Several buffers with clears; the constant time shift is an unknown of the spec that the trace must fix consistently.'),
 'W01': (T, 'Exhaustive refinement model (feature storage of the code vs. one fact per measurement) to depth 7; all add/remove histories to depth 4 plus random histories replayed with the full observable state compared after each.'),
 'W02': (T, 'As W01, every (feature, frame, camera) look-up compared after every operation.'),
 'W03': (T, 'As W01, known features and counts compared after every operation.'),
 'W04': (T, 'As W01, associations and pairwise common features compared after every operation.'),
 'W05': (T, 'Random windows on an integer grid so that the distance threshold is hit exactly; the policy is read from the real update with images without features.'),
 'K01': (T, 'Exact integer (Hurwitz-quaternion, dyadic) model of the midpoint rule; all short histories plus random ones at three time scales, and single steps of sensor size within rounding.'),
 'K02': (T, 'Exact integer covariance recursion over random covariances, noises, rotations and numbers of cameras; every entry compared.'),
 'K03': (T, 'Corrections of pose, covariance and biases, then re-propagation compared exactly with a second real queue integrating afresh and with the model.'),
 'K04': (T, 'Exact: origin moves around every tolerance boundary on generated and random queues.'),
 'A01': (T, 'Fixed-point evaluation in TLA+ of the rotated acceleration for directions all over the sphere, near level, upside-down, and norms around the acceptance bound (within 5 mrad of upside-down 10 mrad are allowed).'),
 'A02': (T, 'Exact tracking on Hurwitz rotations with uncorrected samples; turn and sign of the gravity correction bounded on sensor-like steps.'),
 'A03': (T, 'Code search model-checked against the nearest-sample definition; look-ups around every tolerance and tie boundary replayed.'),
 'A04': (T, 'Exact: trims around every tolerance boundary, later look-ups and samples compared.'),
 'C01': (T, 'Memory growth/shift/cut refined against a labelled covariance; on the code every entry of a tagged covariance is compared exactly after images without usable features and after updates with weightless measurements, alone and in sequences.'),
 'C02': (T, 'As C01, for every window size, number of cameras and position of the dropped frame.'),
 'U01': (T, 'Scenes with known truth, one wrong and uncertain degree of freedom (alone or correlated with velocity or biases): correction to within 10 %, certain states within 3e-6; 1-3 cameras, 2-5 frames, interrupted tracks.'),
 'U02': (T, 'Random covariances with perfect measurements: no state moves by more than 1e-5, no kept variance rises, pose variance falls.'),
 'U03': (T, 'After every update: exact agreement of newest frame and current state, unit orientations, later states compared with a second real queue integrating the same samples afresh, and the origin at the image.'),
 'U04': (T, 'Images without features, with features seen once, or triangulated behind the cameras, placed anywhere in generated histories.'),
 'U05': (T, 'The same scene updated under a ladder of noise levels, priors, feature subsets, with doubled or reversed cameras, three times as large and in a turned world: shrink factors of error and variance agree within 3 %, information scales, adds up and doubles within 4 %; exact fractions in the model.'),
 'S01': (T, 'Whole-estimator spec (status, window, attitude and sample buffers) model-checked over all short histories; all image histories of three images over seven kinds plus random ones replayed into the real Backend with exactly known motion; status, start pose, velocity and attitude judged message by message.'),
 'S02': (T, 'As S01, with outages ending before or after an image, and resets, anywhere; every re-initialisation compared with the truth in its own new frame.'),
 'S03': (T, 'As S01, publication time, state (against the buffers and the known truth), biases and monotony after every message.'),
 'S04': (T, 'Two real Backends, one with constant biases in data and configuration, compared after every message; attitude estimator biases equal after every update.'),
 'S05': (T, 'As S01: both sample buffers (number, ends, after images every stamp) against the spec after every step, every buffered sample bit-equal to the one sent, steps with nothing buffered included; the invariants History and Recorded are model-checked.'),
 'S06': (T, 'MCSchedule: every admissible schedule of 7-9 samples and 3-4 images ends in the state of the ordered one. On the code: schedules enumerated by GenSchedule (four images, lag 0, 1, 4, 25 samples, step now or later) replayed into several real Backends of one process, with another one fed different messages in between; complete states compared (1e-6 units: 50 on poses, 500 on covariances).'),
 'W06': (T, 'As S01 with varied features; window, association, every measurement look-up and count after every image.'),
 'C03': (T, 'As S01 including noisy and swaying motions; size, finiteness, symmetry and signs of variance of every buffered covariance after every message.'),
 'G01': (T, 'Exact in-front and parallax predicates on integer scenes (any integer orientation quaternion); every sequence of two triangulations with up to three views plus random ones with up to 16 views through one triangulator; truth within 0.3 % of the distance.'),
 'G02': (T, 'Random integer scenes, near, far and exact starts, with and without noise; cost never up (1e-3 rounding), noise-free near starts end within 0.3 % of the truth.'),
 'G03': (T, 'Random integer scenes with 10 to 40 points, starts up to about 1 m and 0.25 rad off; pose within 5 mm and 1 mrad; with noise not worse than the truth; malformed sizes refused untouched.'),
 'G04': (T, 'Sampling machine model-checked; random outlier sets, thresholds, sample counts and seeds of std::rand; score of the result, mask and refusals judged from the residual of every point.'),
 'M01': (T, 'Exact integer algebra (Hurwitz orientations, cross and quaternion products, adjugates) model-checked for its laws (associativity, A adj A = det A, composition of transforms) and compared with every utility on enumerated and random inputs; angles in all whole degrees; timer bracketed by a monotonic clock.'),
 'F01': (T, 'Loading machine model-checked against the latest-complete-file definition; all pairs of edits (ten files, eight conditions) plus random directories and repeated loads replayed into the real configurator, every value compared exactly.'),
 'F02': (T, 'As F01 with two estimators set up again and again from the changing directory; every module parameter compared exactly after each set-up.'),
}
