"""Per property: what is executed symbolically, the oracle, and why the tests cannot settle it (used by generate.py for DESIGN.md)."""
ORACLE = {
"C01": "Every participant takes symbolic step sizes. A time-line model computes remaining time, window completion and the end; every getMaxTimeStepSize / isTimeWindowComplete / isCouplingOngoing answer is compared with it.",
"C02": "A list of contract violations (phase, names, sizes, vertex ids, step sizes, read times, NaN) is attempted with symbolic ids, sizes, times; each must raise precice::Error exactly if invalid, and the simulation afterwards must give the values of an undisturbed run.",
"C03": "Values and step sizes symbolic; piecewise linear / constant interpolation of the partner's steps, written as closed form, is compared with readData at a symbolic time.",
"C04": "A reference of the serial / parallel iteration protocol (who reads which iterate, which samples are kept) predicts every read of every iteration; checkpoint requests are compared too.",
"C05": "Residual norms are computed from the values the participants see; the documented inequality of every measure (and the suffices / strict rules) decides whether the window must end; log columns are compared.",
"C06": "Time-line and value references for several bi-coupling schemes on one participant and for parallel/multi coupling.",
"C07": "The second participant's maximum step must equal the sum of the first participant's step; values as C03/C04.",
"C08": "Polynomials of the waveform degree are written at symbolic step times; reads at a symbolic time must return the polynomial (exact rational identities) or agree with the spline's control conditions.",
"C10": "Initial values (written or zero), mapped or not, in every coupling kind against a closed form.",
"C11": "The fixed point residuals are recomputed from the data; constant relaxation and Aitken's factor recursion (with preconditioner scaling) predict the passed-on iterate.",
"C12": "The update is checked through its normal equations: the passed-on iterate equals x~ + W*alpha with V^T(V alpha + r) = 0, columns as documented (reuse, limits).",
"C23": "The elements in the exported files of both participants are compared as sets with the closure (faces, edges) of what was handed over; convex position is decided by the orientations in the three cyclic orders of the four corners, the diagonal by squared lengths.",
"C33": "The files are parsed back. The insertion of a floating-point number into a stream is replaced by one that writes the number of the (symbolic) value in a table, so every number found in a file is compared as an expression with what the participant wrote or can read at the end of that window; the expected set of files and elements is computed independently.",
"C39": "A dense reference Jacobian next to the library: J + (W - J V) V^+ by normal equations, column by column; its rows of secondary data are symbolic. The known finding (columns counted twice) is checked strictly by scenarios of its own; the others follow the library in this one respect, deciding it from what the partner reads.",
"C13": "QR filters: the documented column-dropping inequalities decide the columns; preconditioner weights recomputed.",
"C14": "Distances compared exactly; the mapped value must be that of a nearest vertex; conservative mapping the transpose.",
"C15": "The closest feature is computed by independent exact arithmetic (brute force over vertices, edges, triangles, tetrahedra); barycentric weights compared.",
"C16": "The interpolation conditions and the polynomial side conditions are checked instead of solving: the mapped value must agree with the kernel sum for coefficients satisfying the system (solved exactly, rational), conservative mapping = transpose.",
"C17": "Reproduction (constants / linear), interpolation at coinciding vertices, sum preservation; cluster weights' partition of unity.",
"C18": "Integrals with the mesh's area weights computed in the harness before and after mapping.",
"C19": "v + grad * (y - x) of the nearest vertex.",
"C20": "Documented averages, collected and spread profiles in closed form.",
"C21": "The just-in-time answer at location x must equal the mapping onto a vertex at x; writes must distribute as the conservative mapping; sums over several writes.",
"C22": "Symbolic vertex coordinates and boxes: membership in the closed box decides visibility; ids map to the right vertices in both directions.",
"C28": "The documented ranges written down as inequalities over the injected values; construction must fail exactly outside. Structural defects: one change to a valid configuration, selected by a symbolic index, must fail (and listed valid options must not).",
"C29": "Area shares computed from coordinates; sums of sources; number of applications counted through values.",
"C30": "The remeshed run is compared with fresh runs that start with the meshes of every later epoch (C01-C22 decide what those give).",
"C09": "Rows captured at the table interface are compared with the iterations that were done, the residuals recomputed from the values the participants wrote, and the column counts of the quasi-Newton reference.",
"C31": "Rows captured at the table interface: interpolated value at the closest point; integral by area weights; one row per completed window and at the start.",
"C36": "Three copies of the same simulation with the same symbolic inputs (C++, C, Fortran); all outputs compared.",
"C37": "The same coupled run serial and distributed over symbolic ownership; every read compared per vertex.",
"C38": "The reference step (unconstrained update) and the documented clamp/scale rule decide the result.",
}
