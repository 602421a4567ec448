"""Texts of the properties; tools/gen.py turns them into properties.jsonl and MANIFEST.json."""
G = 'Contracts on the LLVM IR of the real functions, every obligation discharged by z3/cvc5 or exact ring reasoning for all inputs in the stated range. '
COMMON = 'Trusted: clang front end, the VC generator in vp/ (cross-checked against native runs every time), the solvers. Floating point is reals with an explicit error bound per operation.'
PROPS = []


def prop(id, title, statement, over, qtext, why, files, mech, note, technique='deductive: function contracts on LLVM IR, z3/cvc5', level='proof'):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech, note=note, technique=technique, level=level))


prop('P01', 'Integer division, unit conversion and interpolation round correctly',
     'Dividing integers with rounding gives the nearest quotient (halves away from zero for signed numbers), and the rounding-up and rounding-down divisions give the smallest quotient not below and the largest not above the exact one, for every sign combination. Converting millimetres to microns gives the nearest micron, and a whole number of microns survives the trip to millimetres and back. Interpolating between two coordinates with a ratio from 0 to 1 stays between them, hits both ends exactly and is at most one unit off the exact value.',
     ['inputs'], 'all 64-bit operands up to 2^62 (divisors nonzero), lengths up to 10^9 mm, coordinates up to 10^9 um and every ratio in [0,1]',
     'The tests sample a few dozen operand pairs; sign and rounding mistakes hide at particular remainders.',
     ['include/utils/math.h', 'include/utils/Coord_t.h'], [('rounding division', 'include/utils/math.h'), ('unit conversion and lerp', 'include/utils/Coord_t.h')],
     G + 'Nothing bounded. ' + COMMON)
prop('P03', 'Bounding boxes are tight, and their predicates and distances are exact',
     'The bounding box of any set of points, of polygons or of lines is the smallest axis-aligned box around all of them; adding points or boxes grows it just enough, growing and shrinking moves every side by the given amount (an empty box stays empty), and containment, overlap, area, middle and size follow from the sides with boundaries included. The squared distance from a box to a point is the exact squared Euclidean distance outside, minus the squared distance to the nearest side inside, and the distance between two boxes is the smallest such distance between one and a corner of the other. The same holds for the three-dimensional box where those operations exist.',
     ['inputs'], 'all boxes and points with coordinates up to 2^61 (2^30 where products occur, 2^17 for distances), point sets of any length',
     'Tests use a handful of fixed boxes; off-by-one sides, a forgotten axis or the order of corners show only for particular positions.',
     ['src/utils/AABB.cpp', 'src/utils/AABB3D.cpp'], [('2D box', 'src/utils/AABB.cpp'), ('3D box', 'src/utils/AABB3D.cpp')],
     G + 'Loops over point sets by inductive invariants (any length). The smallest rotated bounding box is only checked by a bounded native stand-in. Distances use the callee contract of the point-to-segment distance (P06). ' + COMMON)
prop('P06', 'Nearest points and distances between points, lines and segments are right',
     'The nearest point on a segment or line lies on it up to rounding, is an end point whenever the projection falls outside the segment, and is nearest to the queried point up to rounding; which side the projection falls beyond is reported correctly, and the squared distance to a segment is exact for axis-aligned segments and within rounding otherwise. The squared distance between two segments is zero if they cross or touch and otherwise the smallest end point to segment distance, the closer-than test agrees with it, and the closest connection joins the closest pair found that way. Corners are classified as acute, obtuse or right by the sign of the dot product, and the bisector has the requested length.',
     ['inputs'], 'all coordinates up to 4*10^5 um (2^23 to 2^29 for the predicates), degenerate and zero-length segments included',
     'Tests hold a table of examples; rounding, degenerate segments and mirrored orientations cannot be enumerated.',
     ['src/utils/linearAlg2D.cpp', 'include/utils/linearAlg2D.h'], [('nearest point and distance', 'src/utils/linearAlg2D.cpp'), ('corner classification', 'src/utils/linearAlg2D.cpp')],
     G + 'The point at a given distance on a line is only checked by a bounded native stand-in. Callees (vector length, segment distance) enter by their own proved contracts. ' + COMMON)
prop('P07', 'Side, crossing and intersection predicates on lines and segments are exact',
     'Whether a point lies left of, right of or on a line follows the exact sign of the determinant; an edge is counted as crossing the ray to the right of a point exactly once along a closed outline (lower end included, upper end excluded), with points on the edge reported as such. A segment collides with a horizontal one exactly when their heights and ranges meet, up to one unit. Intersecting a line or segment with a horizontal line answers exactly when a unique crossing exists, exactly at the end points and to the nearest unit elsewhere. Two segments intersect exactly when their lines meet within both, and the intersection point of two lines is the point at the reported position. The angle at a corner, measured on the left, lies in the right half and quarter of the turn.',
     ['inputs'], 'all coordinates up to 2^29 um (2^20 for crossings with horizontals, 2^19 for general line intersections)',
     'Tests hold tables of examples; touching end points, collinear and mirrored cases and rounding cannot be enumerated.',
     ['src/utils/linearAlg2D.cpp', 'include/utils/linearAlg2D.h'], [('side and crossing predicates', 'src/utils/linearAlg2D.cpp'), ('line intersections', 'include/utils/linearAlg2D.h')],
     G + 'Bounded native stand-ins: rounding of the horizontal crossings, the float line intersection itself, sloped width and inside-corner. ' + COMMON)
prop('P08', 'Point and vector arithmetic, lengths and comparisons are exact or nearest',
     'Adding, subtracting, negating, scaling by integers, dividing and combining two- and three-dimensional points act on every coordinate exactly, and scaling by a fraction is within one unit. The length of a vector is the nearest (or floored, where a floating-point length is converted) integer to the true length, squared lengths, dot and cross products are exact, and "not longer than" answers exactly even for the largest coordinates. Resizing a vector keeps its direction and gives the requested length up to rounding, with the zero vector mapped along the first axis, and interpolation between points works per coordinate.',
     ['inputs'], 'all coordinates up to 2^62 (2^30 where products occur, 2^25 for lengths)',
     'Sampled points do not reach overflow-avoiding early exits, sign combinations and rounding boundaries.',
     ['include/geometry/Point2LL.h', 'include/geometry/Point3LL.h', 'src/geometry/Point2LL.cpp', 'src/geometry/Point3LL.cpp'], [('2D points', 'include/geometry/Point2LL.h'), ('3D points', 'include/geometry/Point3LL.h')],
     G + COMMON)
prop('P09', 'Lengths, containment, area and moves of polylines and shapes are exact',
     'The length of a polyline is the sum of the rounded lengths of all its segments, with the closing segment counted exactly for closed lines that do not repeat their first point, sets add up, and the shorter-than test agrees with the length. Segment and point counts and the validity rule follow from the number of points and the kind of closing. Moving or transforming a set maps every point of every line and drops none. A point is inside a shape when an odd number of outlines contain it, inside a part when it is in the outline and in none of the holes, and on any border the given answer holds; areas of outlines and holes add with their sign. Removing a line keeps the others, splitting and cutting keep every segment in order, the start vertex can be moved without changing the outline, and the convex hull is convex, contains all points and uses only corners of the input.',
     ['inputs'], 'point lists of any length with coordinates up to 2^24 um (lengths, moves, containment); random small outlines for the bounded part',
     'Tests use fixed squares and triangles; first and last points, explicit closing, long lines and borders of holes are boundary cases of an unbounded domain.',
     ['src/geometry/Polyline.cpp', 'src/geometry/Shape.cpp', 'src/geometry/LinesSet.cpp'], [('length and closing segments', 'src/geometry/Polyline.cpp'), ('containment', 'src/geometry/Shape.cpp'), ('moves and counts', 'src/geometry/LinesSet.cpp')],
     G + 'Loops by inductive invariants (any length). Clipper point-in-polygon and area, and point transformation, are opaque functions. Bounded native stand-ins: findInside, centre of mass, start vertex, split, segments, convex hull. ' + COMMON)
prop('P16', 'Angles, layer numbers, durations, ratios and speeds calculate exactly',
     'An angle, however it is made, added or subtracted, lies in one full turn starting at zero and is the exact angle up to whole turns and rounding; converting between degrees and radians scales it. A duration made from a number, added, subtracted or scaled is never negative, and is the exact value otherwise. Layer numbers calculate, step, divide towards zero and compare as integers. Ratios, velocities, accelerations and temperatures calculate and compare as the numbers they hold, in every form of each operator.',
     ['inputs'], 'all angles within one turn for arithmetic and within 10^6 degrees for construction, all 64-bit layer numbers without overflow, all other values up to 10^4',
     'These types are used everywhere through implicit conversions; wrap-around and clamping mistakes show only for particular magnitudes and signs.',
     ['include/settings/types/Angle.h', 'include/settings/types/LayerIndex.h', 'include/utils/types/numeric_facade.h'], [('angles', 'include/settings/types/Angle.h'), ('layer numbers', 'include/settings/types/LayerIndex.h'), ('durations', 'include/settings/types/Duration.h')],
     G + 'Nothing bounded. fmod of the C library is exact by definition. ' + COMMON)
prop('P17', 'Transformations, rotations and floating-point vectors are linear algebra',
     'Applying a matrix gives each row times the point, to the nearest unit in the plane and within one unit in space, and the inverse direction uses the transposed matrix. Rotation matrices turn counterclockwise and keep lengths, the matrix of a vector turns along it, the inverse is the adjoint over the determinant, the homogeneous form gives the same result, translations move exactly, and composing multiplies. Rotating about a point keeps it in place, scaling about a point moves every point away from it by the factor of its axis, and identity matrices change nothing. Vectors in millimetres add, scale, multiply and measure as real vectors and convert to microns and back.',
     ['inputs'], 'all points with coordinates up to 2^27 um, all matrix entries up to 1000, all angles up to 10^4 degrees',
     'Tests check a few quarter turns; swapped entries and signs only show for matrices that are not rotations or not symmetric.',
     ['src/geometry/PointMatrix.cpp', 'include/geometry/Point3Matrix.h', 'src/utils/Matrix4x3D.cpp'], [('2D matrices', 'src/geometry/PointMatrix.cpp'), ('homogeneous matrices', 'include/geometry/Point3Matrix.h'), ('model transformations', 'src/utils/Matrix4x3D.cpp'), ('vectors in mm', 'include/utils/Point3D.h')],
     G + 'Nothing bounded. sin and cos are opaque values on the unit circle. ' + COMMON)
prop('P10', 'Wall bead strategies fill the thickness and stack as specified',
     'The number of beads for a thickness grows by one exactly at the transition thickness the strategy itself reports (up to two units), which lies between the optimal thicknesses of the two counts by the configured threshold. Up to seven distributed beads fill the whole thickness symmetrically, each toolpath in the middle of its bead, the difference to the optimal width going mostly to the middle. Redistribution puts the outer walls at both sides with their own width and leaves the rest to the inner strategy, thin walls get one widened bead in the middle, insets move only the walls they are for and never past the middle, and the limit never gives more than one bead above it, marks both inner edges with beads of no width and leaves the rest over. What is not filled is reported as left over. The factory stacks exactly the requested strategies.',
     ['inputs'], 'all thicknesses up to 10^7 um, widths up to 10^5 um, thresholds in [0,1], bead counts up to 1000 for the counts and up to 7 for the layouts',
     'Tests of the strategies are absent; off-by-one counts, rounding and asymmetry appear only for particular thicknesses and orders of stacking.',
     ['src/BeadingStrategy/DistributedBeadingStrategy.cpp', 'src/BeadingStrategy/RedistributeBeadingStrategy.cpp', 'src/BeadingStrategy/LimitedBeadingStrategy.cpp'], [('distribution', 'src/BeadingStrategy/DistributedBeadingStrategy.cpp'), ('outer walls', 'src/BeadingStrategy/RedistributeBeadingStrategy.cpp'), ('limit', 'src/BeadingStrategy/LimitedBeadingStrategy.cpp'), ('thin walls', 'src/BeadingStrategy/WideningBeadingStrategy.cpp'), ('stacking', 'src/BeadingStrategy/BeadingStrategyFactory.cpp')],
     G + 'Layouts are proved per bead count (0 to 7), for all thicknesses; logging is dropped. Bounded native stand-in: textual description of a stack. ' + COMMON)
prop('P11', 'The print time estimate follows the machine limits move by move',
     'Every move becomes one block with its length, a speed not above the limit of any axis, an acceleration not above the limit of any axis it moves, and a junction speed that keeps the change of speed of every axis within its jerk limit; a move of no length gives no block. Every block can be entered at a speed from which it can brake for the next one and to which the previous one can accelerate. Within a block, accelerating, cruising and braking distances are those of uniform acceleration between its end speeds and the top speed, ordered and within the block. The time of a block counts for its own kind of line only, extra time for none, times add up and are never negative, and a reset forgets everything.',
     ['inputs'], 'all speeds up to 1000 mm/s, accelerations up to 10^5 mm/s2, moves along one axis (4 mm in space, any length for the extruder; any length in the thorough run), two and three blocks for the passes; random moves in space for the bounded part',
     'The tests compare totals of a few hand-made moves; clamps, the tightest of several limits and end-of-list cases show only for particular combinations.',
     ['src/timeEstimate.cpp', 'include/timeEstimate.h'], [('planning of a move', 'src/timeEstimate.cpp'), ('speed profile', 'src/timeEstimate.cpp'), ('passes over the blocks', 'src/timeEstimate.cpp'), ('sum of times', 'src/timeEstimate.cpp')],
     G + 'Planning uses the callee contract of the speed profile (proved on its own). Bounded native stand-ins: two moves in space, the total of two blocks. ' + COMMON)

prop('P04', 'A search in a spatial grid never misses what lies within the radius',
     'Every point belongs to exactly one cell of a square grid and lies within one cell size of its corner. Searching around a point with a radius visits the cell of every point within the radius (in both directions), only cells of the box around the query, and stops as soon as it is told to, saying so. Walking the cells along a line covers every point of the line, starts and ends in the cells of its ends and visits each cell once; the same holds for voxels along a line in space, which steps from face to face, and for outlines. The nearest stored element within the radius that satisfies a condition is found whenever there is one, all elements and lines within the radius are returned, each element once, and dilating around a voxel visits exactly the cells of the kernel.',
     ['inputs'], 'all coordinates up to 2^40, every cell size up to 2^30 and every radius up to 2^40 for points; random lines, point sets and kernels for the bounded parts',
     'The tests query a few grids; a missed cell shows only for particular positions relative to the cell borders, signs and radii.',
     ['src/utils/SquareGrid.cpp', 'include/utils/SparseGrid.h', 'src/utils/VoxelUtils.cpp', 'include/utils/VoxelUtils.h'], [('cells and neighbourhoods', 'src/utils/SquareGrid.cpp'), ('stored elements', 'include/utils/SparseGrid.h'), ('voxels, lines and kernels', 'src/utils/VoxelUtils.cpp')],
     G + 'Cells, neighbourhood searches (any radius, by inductive invariants over rows and cells) and voxels are proved; line walks, hash-grid contents and kernels are bounded native stand-ins. ' + COMMON)

prop('P19', 'The seam goes to the best scoring candidate, and scores mean what they say',
     'Choosing the best of several candidates gives one of them, or nothing when there is none. With one pass it is the first with the highest weighted sum of scores; with several, only candidates whose score is within the threshold of the best of a pass go on to the next one, and the last pass picks the first best of those left. The distance score is the reciprocal of one plus the distance (in the plane or along one axis) over the divider, so it is never above one and the closer point never scores lower. The corner score depends on the angle a millimetre to either side along the outline: convex and concave preference are opposite, sharpness ignores the direction, the weighted one counts concave corners double, and all lie between zero and one. Points in an exclusion area, borders included, score nothing.',
     ['inputs'], 'up to 4 candidates and two passes with any scores and thresholds from 0 to 1, coordinates up to 10^7, triangles for the corner scores; up to 10 candidates and three passes and outlines of up to 32 points for the bounded parts',
     'No test covers the choice; a wrong comparison shows only for particular orders of scores.',
     ['src/utils/scoring/BestElementFinder.cpp', 'src/utils/scoring/CornerScoringCriterion.cpp', 'src/utils/scoring/DistanceScoringCriterion.cpp', 'src/utils/scoring/ExclusionAreaScoringCriterion.cpp'], [('choice over passes', 'src/utils/scoring/BestElementFinder.cpp'), ('corner score', 'src/utils/scoring/CornerScoringCriterion.cpp'), ('distance score', 'src/utils/scoring/DistanceScoringCriterion.cpp')],
     G + 'The corner angle enters by its contract (P07), lengths by theirs (P08). Larger candidate sets, general outlines, exclusion areas and random scores are bounded native stand-ins. ' + COMMON)

prop('P12', 'Nozzle temperatures follow the flow graph and the heating and cooling speeds',
     'The temperature for a flow is the print temperature when the flow graph is empty or not used, the temperature of the first or last point below or above the graph, and the linear interpolation between the neighbouring points elsewhere. Going from one temperature to another takes the difference over the heating or cooling speed of that extruder, corrected for the cooling by extrusion while printing, and never a negative time. The initial layer uses its own temperature if it has one. When a nozzle cools down to standby and warms up again (or warms up to print and cools down again) within a time window, the heating (cooling) takes exactly the time from the lowest (highest) temperature to the end, within the window, the temperature stays between standby and both ends (both ends and printing), reaches it when there is time, and otherwise the window is used up; if the window is too short, no turn is made.',
     ['inputs'], 'all flows, temperatures up to 500 degrees and windows up to 10^5 s; graphs of any length (interpolation values: up to 7 points, random); time windows for three settings of heating and cooling speeds, random speeds bounded',
     'Nothing tests these; a wrong rate or a wrong neighbour only shows when heating and cooling speeds differ or the flow falls on certain segments.',
     ['src/settings/FlowTempGraph.cpp', 'src/Preheat.cpp'], [('flow graph', 'src/settings/FlowTempGraph.cpp'), ('heating and cooling', 'src/Preheat.cpp')],
     G + 'Settings are five given numbers looked up by name (stand-in for Application and Settings). Bounded native stand-ins: interpolated values, time windows for arbitrary speeds. ' + COMMON)

prop('P15', 'Lengths, widths and material of wall lines come out as their definition says',
     'The length of a wall line is the sum of the lengths of its segments, plus the segment from the last point back to the first exactly when the line is closed. A line is shorter than a given length exactly when going around it (the way back to the start included) is. The minimal width is the least width of any junction. Reversing a line reverses its junctions and changes none of them. Two junctions are equal exactly when position, width and wall index are. The material needed per length is line width times layer thickness times flow, and a path configuration is a travel exactly when its line width is zero. The deviation caused by removing a junction of a line of varying width is zero if a segment has no length, never negative, and otherwise the area by which one line of the (length-weighted) average width differs from the two lines it replaces; for nearly equal widths, the width difference over the shorter segment.',
     ['inputs'], 'lines of any number of junctions within 2^24 units (reversal: up to 4); deviation: coordinates up to 10^6, widths up to 10^4, general widths bounded',
     'Tests sample a few lines; a forgotten closing segment or a swapped weight shows only as slightly wrong lengths, widths or material.',
     ['src/utils/ExtrusionLine.cpp', 'src/utils/ExtrusionJunction.cpp', 'src/GCodePathConfig.cpp', 'src/utils/Simplify.cpp', 'include/PathAdapter.h'], [('lines', 'src/utils/ExtrusionLine.cpp'), ('path configuration', 'src/GCodePathConfig.cpp'), ('deviation', 'src/utils/Simplify.cpp')],
     G + 'The length of a vector enters as an uninterpreted function of its coordinates, equal for opposite vectors (its value is the business of P08). Bounded native stand-ins: outline of a line, deviation for widths that differ by more than one unit. ' + COMMON)

prop('P05', 'Numbers and texts written to G-code are the values meant',
     'A length in microns is written as exactly that length in millimetres: an optional sign, digits, and at most three decimals after a dot, without needless zeros. A floating-point number is written as the nearest decimal number with at most the given number of decimals, without exponent and without needless zeros, and a number is recognised as one that would write zero when it is below its last decimal, whatever its sign. Escaped text has every special character replaced by its escape sequence and all others kept in order. Base 64 encodes every byte, and texts compare regardless of case like their lower-case forms.',
     ['inputs'], 'all 32-bit lengths, numbers up to 10^9 with 0 to 9 decimals, escaped texts of two characters; base 64 and case up to 30 and 8 characters, random',
     'Tests write powers of ten; a digit lost or a zero too many shows only for particular digits and signs.',
     ['include/utils/string.h'], [('numbers as text', 'include/utils/string.h')],
     G + 'Assumed contracts: snprintf writes sign and digits of the (correctly rounded) number, the stream appends what it is given. Bounded native stand-ins: two numbers in a row, base 64, comparison regardless of case. ' + COMMON)

prop('P13', 'Cutting segments and outlines in space to a layer keeps exactly the part inside',
     'A segment cut to the layer between two parallel planes (across X, Y or Z) gives nothing if it lies wholly on one side, itself if it lies wholly within the layer (both planes included), and otherwise the part within: an end inside stays as it is, an end outside is moved along the segment to the plane it lies beyond, nothing leaves the bounding box of the segment, and only a part of the length of a rounding error may be dropped. The point at a coordinate lies on the segment up to rounding. An outline cut to a layer is closed, every piece starting where the one before ends, stays within the layer and the box of the outline, and vanishes only if less than two pieces are left; its extent is the smallest and largest coordinate of its points.',
     ['inputs'], 'all segments and layers with coordinates up to 10^6; outlines of up to 8 segments, random',
     'Nothing tests these; a lost end or border shows only for segments that touch or cross a plane in one particular way.',
     ['src/utils/Segment3LL.cpp', 'src/utils/PlanarPolygon3LL.cpp'], [('segments', 'src/utils/Segment3LL.cpp'), ('outlines', 'src/utils/PlanarPolygon3LL.cpp')],
     G + 'The point at a coordinate enters the cut by its contract, which itself is only checked by a bounded native stand-in, as are the cuts and the extent of whole outlines. ' + COMMON)


def na(id, title, statement, over, qtext, why, files, mech, reason):
    prop(id, title, statement, over, qtext, why, files, mech, '')
    NA.append((id, reason))


NA = []
na('N01', 'Travel moves that comb never cross the outline they must stay inside',
   'A combing path between two points of the same part stays inside the combing boundary along its whole length, ends where the travel ends, and is reported as impossible rather than crossing a wall when no such path exists.',
   ['inputs'], 'all outlines, start and end points', 'The tests comb in a few fixed shapes; crossings depend on the exact position of corners.',
   ['src/pathPlanning/LinePolygonsCrossings.cpp', 'src/pathPlanning/Comb.cpp'], [('comb path', 'src/pathPlanning/LinePolygonsCrossings.cpp')],
   'The path is walked over offset outlines made by the external Clipper library, whose offsets have no contract within reach; the remaining statement quantifies over positions of a variable number of crossings found through a hash grid. No contract on the repository functions alone decides it.')
na('N02', 'Shape union, difference, intersection, xor and offset are set operations',
   'The results of the boolean operations of shapes cover exactly the points the operation says, up to rounding of coordinates, and an offset covers the points within the distance.',
   ['inputs'], 'all shapes', 'A handful of squares is tested.',
   ['src/geometry/Shape.cpp'], [('boolean operations', 'src/geometry/Shape.cpp')],
   'The functions in the repository only hand the outlines to the external Clipper library and return its answer; the guarantee is that of Clipper (a sweep line over a scan beam), an external dependency outside the code under contract.')
na('N03', 'Stitching polylines keeps every piece and closes what touches',
   'Stitching joins end points within the given distance, closest first, uses every input line exactly once, keeps the order of points within each, and closes chains whose ends meet.',
   ['inputs'], 'all sets of lines', 'Tests stitch small hand-made sets.',
   ['include/utils/PolylineStitcher.h', 'src/utils/PolylineStitcher.cpp'], [('stitching', 'include/utils/PolylineStitcher.h')],
   'The result depends on the iteration order of a hash grid and on a queue sorted by distance over a variable number of lines; the invariants needed (a permutation of the lines, each with its own length) are beyond the first-order array invariants the verifier here can find or check.')
na('N04', 'Work on the thread pool runs every item once and hands back every result',
   'Every task pushed is run exactly once, a parallel loop returns after all its items are done and not before, the ordered producer and consumer sees every item in order, and no worker waits for ever.',
   ['schedules'], 'all interleavings of any number of workers', 'Tests run one schedule.',
   ['src/utils/ThreadPool.cpp', 'include/utils/ThreadPool.h'], [('thread pool', 'src/utils/ThreadPool.cpp')],
   'The verifier here is sequential: it has no ownership logic for mutexes, condition variables and atomics, and no installed deductive verifier reads this C++ with threads (Verus reads Rust, Frama-C has no WP).')
na('N05', 'Variable-width walls cover the outline once, without gaps or overlaps',
   'The beads laid along the skeleton of a part together cover the part up to the configured limits, each wall line keeps its width within the limits of the strategy, and transitions between bead counts happen over the configured length.',
   ['inputs'], 'all outlines and wall settings', 'Arachne tests compare counts and areas of a few shapes.',
   ['src/SkeletalTrapezoidation.cpp', 'src/WallToolPaths.cpp'], [('skeleton', 'src/SkeletalTrapezoidation.cpp')],
   'These files need a dependency (scripta) that is not installed and are not part of the build here; the graph comes from the external Voronoi diagram of Boost. The strategies that decide the beads of one thickness are covered by P10.')
na('N06', 'Sliced outlines, infill and support follow the mesh; G-code follows the plan',
   'Every layer outline is the cross section of the mesh at its height, infill stays within its area at the configured density, support stands under every overhang, and the written G-code performs exactly the planned moves with the planned extrusion, speeds and temperatures.',
   ['inputs', 'histories'], 'all meshes and settings', 'Tests slice cubes.',
   ['src/slicer.cpp', 'src/infill.cpp', 'src/support.cpp', 'src/LayerPlan.cpp', 'src/gcodeExport.cpp'], [('pipeline', 'src/FffPolygonGenerator.cpp')],
   'These files need dependencies that are not installed here (scripta, cura-formulae) and are left out of the build and of the stable tests: neither the verified text nor a native replay of it can be built.')
na('N07', 'Setting values are read in their own unit, from the nearest scope that has them',
   'Reading a setting gives the value of the innermost scope that defines it (or of the extruder it is limited to), converted from text to the unit asked for; lists, booleans and enumerations are recognised in every spelling the front end writes.',
   ['inputs'], 'all setting texts and scopes', 'Tests read a few values of every type.',
   ['src/settings/Settings.cpp'], [('reading settings', 'src/settings/Settings.cpp')],
   'The functions are text parsing by the C library (stod, regular expressions, rapidjson) over hash maps of strings; the verifier has no theory of these and the parts that are arithmetic (unit factors) are single constants.')
na('N08', 'Simplifying an outline removes only what deviates less than allowed',
   'Simplifying keeps at least three points of an outline or drops it whole, never moves the outline by more than the maximum deviation, keeps end points of open lines, and leaves long edges of enough deviation alone.',
   ['inputs'], 'all outlines and limits', 'Tests simplify circles and sines.',
   ['src/utils/Simplify.cpp'], [('simplification', 'src/utils/Simplify.cpp')],
   'Points are removed in the order of a priority queue with replacements that accumulate deviation; a bound on the distance between input and output outline needs a relation between two polylines of unbounded length that no first-order loop invariant within reach states. The deviation measure itself is covered by P06 and P15.')
