#!/usr/bin/env python3
# Source of /verif/properties.jsonl (kept as code so that it stays valid JSON).
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None, hook=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                          observe_at=observe or [], hook_needed=hook))
    if state: d['anchors']['state'] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    assert len(title) <= 80, title
    P.append(d)

p('C01', 'A mesh file loads as exactly the triangles it describes',
  'Loading a ground mesh file (RDF or OBJ) yields one triangle per element record, in file order, with identifiers counting from zero, the three vertices being the transformed nodes the record names, the friction the record (or, for OBJ, the caller) gives, an upward unit normal and a tight bounding box. This does not depend on how the operating system delivers the bytes: short reads and interrupted reads change nothing. Content that has no such meaning (missing or, in RDF, surplus fields, non-numeric or non-finite fields, indices naming no node, negative friction, no element at all) is refused with an error and never accepted as some other mesh.',
  ['inputs', 'fault_sequences'],
  'every file content in the accepted format (spacing, blank lines, comments, CRLF, missing final newline, sections in any order that defines nodes before use), every pose and friction, every corruption of it, and every schedule of short and interrupted reads',
  'The tests load a handful of fixed files through an undisturbed file system and check only that nothing throws.',
  ['src/mesh.cc', 'src/triangleground.cc', 'src/enve/mesh.hxx'],
  [('line parser', 'src/mesh.cc mesh::load (both overloads), split, tail, firstToken'), ('triangle record', 'src/triangleground.cc updateNormal/updateBBox')],
  observe=['ground::mesh::load and the loading constructors', 'size(), operator[], vecptrTriangleground()'])

p('C02', 'A load that fails changes nothing and is always reported',
  'If reading a ground file fails at any point - the file cannot be opened, a read fails half way, memory runs out, or the content is refused - the load reports an error, and a mesh object that already held a mesh keeps exactly its previous triangles and goes on answering queries about them. A load never reports success while holding only part of the file. A later load that meets no fault succeeds and replaces the contents.',
  ['fault_sequences', 'crash_points', 'histories'],
  'every history of loads, reloads, copies and clears on one object, with a read error, open failure, allocation failure or malformed record injected at any byte, call or record',
  'No test makes a read, an open or an allocation fail, and none loads into an object that already holds a mesh.',
  ['src/mesh.cc'],
  [('error checks after the read loop', 'src/mesh.cc mesh::load'), ('ENVE_ASSERT on records', 'src/mesh.cc mesh::load')],
  state=[('m_triangles', 'the mesh', 'src/enve/mesh.hxx'), ('m_bboxes, m_AABBtree', 'search structure over it', 'src/enve/mesh.hxx')],
  observe=['ground::mesh::load', 'ground::mesh::intersection', 'ground::mesh::size'])

p('C03', 'A mesh box query returns exactly the current triangles in reach',
  'Asking a mesh which triangles a box reaches returns each triangle of the mesh whose bounding box meets the query box exactly once and no other, and the verdict says whether there is any. This holds after any history of construction from triangles or file, load, reload, copy, clear, rebuild, and failed attempts at these, including for an empty mesh. Triangles handed out earlier stay valid and unchanged whatever happens to the mesh afterwards.',
  ['histories', 'inputs', 'fault_sequences'],
  'every set of triangles (any identifiers, any size from none up, coincident, flat or degenerate boxes), every history of mesh operations with failures injected, and every query box',
  'Tests only query meshes freshly loaded from fixed files, never after copy, clear, reload or failure, and never compare the answer with anything.',
  ['src/mesh.cc', 'toolbox/src/AABBtree.cc', 'toolbox/src/aabb.cc'],
  [('axis-aligned box tree', 'toolbox/src/AABBtree.cc build, intersection'), ('rebuild on load', 'src/mesh.cc buildAABBtree, updateBBoxes')],
  state=[('m_bboxes, m_AABBtree', 'search structure', 'src/enve/mesh.hxx')],
  observe=['ground::mesh::intersection(box, triangles)'])

p('C04', 'Shells stepped from several threads give their single-thread results',
  'Several threads may each own shells and step them concurrently against one shared, unmodified mesh or plane, query that mesh, and construct, resize, print and destroy their own objects: every thread observes exactly the results it would observe running alone. A step that fails in one thread (allocation failure, invalid argument) affects no other thread.',
  ['schedules', 'fault_sequences'],
  'every interleaving of the threads at the granularity of basic blocks and allocations, every mix of operations per thread, and failures injected into some of them',
  'All tests are single-threaded.',
  ['src/shell.cc', 'src/rib.cc', 'src/mesh.cc', 'toolbox/src/AABBtree.cc', 'toolbox/src/intersection.cc'],
  [('queries on the shared ground are const and keep their temporaries local', 'src/mesh.cc intersection; src/rib.cc envelop*; toolbox/src/intersection.cc'), ('reference-counted immutable triangles', 'src/enve/triangleground.hxx')],
  state=[('per-shell ribs, outputs, candidates', 'must not be shared between shells', 'src/enve/shell.hxx')],
  observe=['shell::setup and the contact getters in each thread'])

p('C05', 'Geometric contact on a mesh matches the enveloping model all along a drive',
  'At every step of a drive over a triangle mesh with the geometric model, each rib reports contact exactly when its disk cuts the mesh; the contact area is the length of mesh profile inside the disk times the rib width, the volume is the disk area between that profile and the rim (each cut triangle seen from the rib centre under the angle it really subtends) times the rib width, and point, normal, and friction are the volume-weighted means over the cut triangles, with depth the radius minus the distance of the point from the rib centre. No triangle the disk reaches is missed, whatever the pose, the shell width and camber, or the steps that went before. Ribs without contact report the bottom of the rib, the vertical axis of the wheel frame as normal, and zero friction, depth, area and volume, and the step returns true exactly when some rib has contact.',
  ['histories', 'inputs', 'fault_sequences'],
  'every mesh (height fields, kerbs, walls, holes, triangle soup), every shell, every sequence of poses, resizes, ground changes and failed steps',
  'Tests drive fixed meshes and only check that nothing throws; no value is ever compared.',
  ['src/rib.cc', 'src/shell.cc', 'toolbox/src/intersection.cc'],
  [('rib/triangle cut', 'src/rib.cc envelopGeometric(mesh)'), ('candidate selection', 'src/shell.cc setup, updateBBox, refineIntersection'), ('plane/triangle/disk intersection', 'toolbox/src/intersection.cc')],
  state=[('m_candidates, m_out, m_affine, m_bbox', 'per-step state kept between steps', 'src/enve/shell.hxx')],
  observe=['shell::setup(mesh, pose, "geometric"), contact*(i, ...)'])

p('C06', 'Sampling contact matches the four-point model all along a drive',
  'At every step of a drive with the sampling model, each rib samples the ground on four vertical lines (a tenth of the radius before and behind its centre, three tenths of the width to either side) and takes on each the highest ground point of the mesh around the shell, or the plane; it has contact exactly when all four lines hit and the resulting depth is positive. Point and friction are the means of the four samples, the normal is the normal of the sampled patch, depth is the radius (projected on the patch normal) minus the distance from the rib centre, and area and volume are those of a disk segment of that depth. Ribs without contact report the no-contact values, and nothing of an earlier step shows in a later one.',
  ['histories', 'inputs', 'fault_sequences'],
  'every mesh or plane, every shell, every sequence of poses, resizes, ground changes and failed steps',
  'Tests never compare sampled values with anything.',
  ['src/rib.cc', 'src/shell.cc', 'toolbox/src/intersection.cc'],
  [('four sampling lines', 'src/rib.cc envelopSampling, samplingLine'), ('line/triangle intersection', 'toolbox/src/intersection.cc')],
  observe=['shell::setup(..., "sampling"), contact*(i, ...)'])

p('C07', 'Flat-ground contact matches the disk-segment model all along a drive',
  'At every step of a drive over a plane with the geometric model, each rib has contact exactly when its disk cuts the plane, and then reports the middle of the cut as point, the plane normal as normal, the plane friction, the radius minus the distance of the point from the rib centre as depth, and the chord length and disk-segment area times the rib width as area and volume. Ribs without contact report the no-contact values. The step returns true exactly when some rib has contact, whichever rib that is.',
  ['histories', 'inputs', 'fault_sequences'],
  'every plane, every shell, every sequence of poses and ground changes, including plane edits and failed steps between the steps',
  'Tests call the flat setup for fixed poses and never compare values or the verdict.',
  ['src/rib.cc', 'src/shell.cc', 'src/flat.cc'],
  [('rib/plane cut', 'src/rib.cc envelopGeometric(flat)'), ('verdict over ribs', 'src/shell.cc setup(flat)')],
  observe=['shell::setup(flat, pose, "geometric"), contact*(i, ...)'])

p('C08', 'Shell-level contact outputs agree with the per-rib outputs after every step',
  'After every step, the shell contact area and volume are the sums over the ribs; point, normal (renormalised), friction and depth are the volume-weighted means, or, when the total volume is negligible, the plain means with zero depth. Every list form returns one entry per rib equal to the indexed form, whatever vector the caller passes in. The contact frames are right-handed orthonormal frames at the contact point with the contact normal as third axis, and the relative angles are those of the wheel frame seen from that contact frame, with the surface angle of the rib taken off the first of a rib.',
  ['histories', 'inputs'],
  'every drive, including resizes, changes of ground and of method between steps, and every size of the vectors passed in',
  'Tests print these values but never relate them to each other.',
  ['src/shell.cc'],
  [('weighted averages', 'src/shell.cc contactPoint/Normal/Friction/Depth/Area/Volume'), ('frames', 'src/shell.cc contactPointAffine, relativeAngles')],
  state=[('m_out', 'per-rib results of the last step', 'src/enve/shell.hxx')],
  observe=['shell::contact*, contactPointAffine, relativeAngles'])

p('C09', 'Contact does not depend on the order the mesh records arrive in',
  'Two meshes made of the same triangles give the same contact result at every step of the same drive - same verdict, and per-rib and shell values equal up to rounding - whatever the order of the element records, the order of the nodes, the winding of the triangles, the file format, or whether the mesh was built from a file, from a triangle list, or by copying another mesh. This includes degenerate and barely touched triangles anywhere in the order.',
  ['histories', 'inputs'],
  'every reordering of the records and every way of building the mesh, along every drive',
  'Each test uses one file in one order.',
  ['src/rib.cc', 'src/mesh.cc', 'toolbox/src/AABBtree.cc'],
  [('accumulation over candidates', 'src/rib.cc envelopGeometric(mesh) loop'), ('tree split', 'toolbox/src/AABBtree.cc build')],
  observe=['shell::setup and contact getters on permuted meshes'])

p('C10', 'A step depends only on its inputs, not on earlier or failed steps',
  'The outcome of a contact step - verdict or error, and every per-rib and shell output - is a function of the shell dimensions, the rib count, the ground and the pose and method given to that step: it is identical to that of a freshly constructed shell given only that step. This holds whatever the shell did before: other grounds, other methods, resizes, being moved by hand, or steps that failed with an error half way.',
  ['histories', 'fault_sequences'],
  'every history of steps, resizes, hand moves and failed steps (invalid method, allocation failure at any point) before the step',
  'Tests run one kind of step on one shell and never compare with a fresh one.',
  ['src/shell.cc', 'src/rib.cc'],
  [('per-step reset of candidates and outputs', 'src/shell.cc setup, refineIntersection')],
  state=[('m_candidates, m_out, m_affine, m_bbox', 'carried between steps', 'src/enve/shell.hxx')],
  observe=['shell::setup and all getters, compared bit for bit with a fresh shell'])

p('C11', 'The ribs always tile the shell width, and a failed resize changes nothing',
  'After construction or any resize with n ribs, the shell has exactly n ribs of equal width that tile the shell surface from one edge to the other in order, each carrying the profile radius and surface angle at its centre; radius, slope and angle of the surface itself follow the profile up to its edge and are refused beyond; and every getter for every rib can be used safely for any n. A resize that fails (no ribs, a profile undefined at a new rib centre, memory exhausted) is reported and leaves the previous ribs and their last contact results in place.',
  ['histories', 'fault_sequences', 'inputs'],
  'every sequence of resizes to any size from one to several hundred, interleaved with steps, with invalid sizes, undefined profiles and allocation failures injected',
  'Tests use one rib count per shell, never resize after construction, and never exceed a few ribs.',
  ['src/shell.cc', 'src/shape.cc'],
  [('rib placement', 'src/shell.cc resize'), ('profile', 'src/shape.cc surfaceRadius, surfaceAngle')],
  state=[('m_ribs, m_out, m_candidates', 'must agree in length', 'src/enve/shell.hxx')],
  observe=['shell::resize, size, ribRadius/ribCenter/ribWidth/ribAngle, contact getters'])

p('C12', 'Each S-function step fills the whole output bus with that step\'s contact',
  'After every S-function output call, every field of the output bus has been written: the shell and rib contact frames in column-major order, depths and frictions equal what the shell reports for the given hub frame, method and ground selection, and slots beyond the rib count hold NaN. With the mesh selected, the in-mesh flag tells whether the mesh was touched, and when it was not, all contact values are those of the back-up plane; with the plane selected the flag is set. A call with an invalid method or selector, or one that fails, is reported and does not corrupt later calls.',
  ['histories', 'inputs', 'fault_sequences'],
  'every sequence of calls with any hub frame, method, selector and previous bus contents, with invalid calls and allocation failures in between',
  'The S-function test makes one call and checks no output.',
  ['sfun/src_sfun/enve_sfun_interface.cc', 'sfun/include_sfun/enve_sfun_types.h'],
  [('bus marshalling', 'sfun/src_sfun/enve_sfun_interface.cc enve_sfun_out')],
  state=[('MeshPtr, FlatPtr, ShellPtr', 'session state', 'sfun/src_sfun/enve_sfun_interface.cc')],
  observe=['enve_sfun_out output bus'])

p('C13', 'S-function sessions start and end cleanly, over and over',
  'Every S-function session that ends has released all memory it allocated, however many sessions run in one process, and ending is safe when there is no session or the last start failed. A start that fails for any reason - no ground path, wrong extension, unreadable or refused file, invalid shell, memory exhausted - reports an error and leaks nothing, and a start while a session is active replaces that session (a start that fails either keeps the session that was active exactly as it was or leaves none). A session started after any such history behaves exactly like the first.',
  ['histories', 'fault_sequences', 'crash_points'],
  'every sequence of starts, steps and ends, with the environment, the ground file and the memory failing at any point of a start',
  'The test runs one init, one step and one end, and cannot see what is released.',
  ['sfun/src_sfun/enve_sfun_interface.cc'],
  [('session lifecycle', 'sfun/src_sfun/enve_sfun_interface.cc enve_sfun_init, enve_sfun_end')],
  state=[('MeshPtr, FlatPtr, ShellPtr', 'session state', 'sfun/src_sfun/enve_sfun_interface.cc')],
  observe=['live allocations after enve_sfun_end; errors from enve_sfun_init'])

p('C14', 'Running out of memory is reported, leaks nothing and breaks nothing',
  'If an allocation fails anywhere inside a library call, the call reports it with an exception; it never crashes, hangs, or returns a wrong result as if it had succeeded. Afterwards all objects involved can still be used and destroyed: the same call repeated with memory available gives the result it would have given, and once every object is destroyed all memory is back.',
  ['fault_sequences', 'histories'],
  'every allocation of every call in every history of mesh, shell, plane and tree operations',
  'No test makes an allocation fail.',
  ['src/mesh.cc', 'src/shell.cc', 'src/rib.cc', 'toolbox/src/AABBtree.cc'],
  [('RAII ownership', 'shared_ptr/vector members throughout'), ('stream state checks', 'src/mesh.cc load, print')],
  observe=['exceptions, object state and live allocations after each failed call'])

p('C15', 'A mesh export is complete on disk or reported as failed',
  'When printing a mesh to a file returns normally, the file holds the complete listing: the legend and, for every triangle in order, its position, vertices, normal and friction. If the file cannot be created or any write or the close fails - full disk, I/O error - at any byte, the call reports an error. Interrupted or short writes are retried and change nothing, and neither outcome affects the mesh.',
  ['fault_sequences', 'crash_points', 'inputs'],
  'every mesh, every size of disk, every byte at which a write fails or is cut short, failing opens and closes',
  'No test makes a write fail or reads an export back.',
  ['src/mesh.cc'],
  [('stream output', 'src/mesh.cc mesh::print')],
  observe=['ground::mesh::print and the resulting file'])

p('C16', 'No drive over a valid ground aborts or yields non-finite contact',
  'For any valid mesh or plane - including degenerate triangles, walls, vertices or edges exactly on a rib plane or rim, duplicated triangles, and ground at or above the hub - any valid shell and any finite rigid hub frame, every step completes without an error within a bounded amount of work. All contact values of all ribs and of the shell are finite, normals have unit length even where they cancel, friction lies within the range of the ground touched, and depth, area and volume are not negative, the depth does not exceed the radius, and area and volume do not exceed those of the disk of the rib for each triangle touched.',
  ['inputs', 'histories'],
  'every adversarial alignment of ground and wheel along every drive, including the steps after such an alignment',
  'Tests use generic poses on benign meshes; exact alignments never occur in them.',
  ['src/rib.cc', 'src/shell.cc', 'toolbox/src/intersection.cc'],
  [('degenerate-case handling', 'toolbox/src/intersection.cc line/triangle, segment/disk; src/rib.cc envelopGeometric')],
  observe=['shell::setup and all contact getters'])

p('C17', 'The same drive gives bit-identical results whatever memory held before',
  'Repeating the same sequence of operations gives bit-identical outputs and files, independent of the previous contents of heap and stack memory, of where objects are allocated, and of what unrelated objects did before in the same process.',
  ['histories', 'configurations'],
  'every sequence of operations, every content of recycled memory and every allocation layout',
  'Tests run each sequence once in a fresh process, where memory is mostly zero.',
  ['src/shell.cc', 'src/rib.cc', 'src/mesh.cc', 'toolbox/src/point.cc', 'toolbox/src/intersection.cc'],
  [('every output written before it is read', 'src/shell.cc setup; src/rib.cc envelop*')],
  observe=['all outputs of twin executions with different memory contents'])

p('C18', 'Box trees report exactly the overlapping pairs, through any rebuild',
  'Intersecting two box trees lists exactly the pairs of boxes that overlap, each once, first tree first, and the collision test answers whether such a pair satisfies the given predicate. This holds for any boxes - nested, coincident, flat, touching - of any number including none, after any sequence of builds, rebuilds and clears. A build that fails for lack of memory is reported and leaves the tree as it was or empty, and it can be rebuilt.',
  ['histories', 'fault_sequences', 'inputs'],
  'every list of boxes, every history of builds and clears on both trees, allocation failure at any point of a build',
  'Only one test touches the trees, on one fixed mesh.',
  ['toolbox/src/AABBtree.cc', 'toolbox/src/aabb.cc', 'toolbox/src/acme/AABBtree.hxx'],
  [('recursive split and descent', 'toolbox/src/AABBtree.cc build, intersection; toolbox/src/acme/AABBtree.hxx collision')],
  observe=['AABBtree::intersection, collision, isEmpty'])

p('C19', 'Entity collections keep exactly their members through any history',
  'A collection of geometric entities behaves like an ordered list through any history of additions, removals by kind, resizes, clears and moves: removing a kind drops exactly the entities of that kind and keeps the others in order, the size, per-kind counts and the contains/all-are questions agree with the members, and a box search after the search tree was built returns exactly the members whose boxes overlap. A copy has the same members and then goes its own way. An operation that fails leaves the members as they were.',
  ['histories', 'fault_sequences'],
  'every history of collection operations over every mix of entity kinds, with allocation failures injected',
  'No test uses collections beyond construction.',
  ['toolbox/src/collection.cc', 'toolbox/src/acme/collection.hxx'],
  [('entity vector', 'toolbox/src/collection.cc remove*, count*, contain*, are*')],
  state=[('m_entities', 'the members', 'toolbox/src/acme/collection.hxx')],
  observe=['acme::collection public interface'])

p('C20', 'MATLAB commands do exactly what enve does, or report an error',
  'Any sequence of calls of the MATLAB gateways for shells, meshes, planes and ground triangles does what the same operations do to the enve object behind the handle: a well-formed command returns that object\'s values - matrices by columns, ribs and triangles numbered from 1 - and changes that object alone - and so do the methods of the toolbox classes that issue one command. A command that cannot be carried out (unknown, wrong number, size or class of arguments, a number outside 1..size, a null handle or one of another type, a file that cannot be loaded, memory exhausted) is reported as a MATLAB error, reads nothing outside its arguments and leaves every object usable. Deleting every handle releases the library and all memory.',
  ['histories', 'inputs', 'fault_sequences'],
  'every sequence of commands on any number of handles, well-formed or not, with load errors and memory exhaustion (in the library and in MATLAB) in between',
  'No test runs the gateways; the MATLAB classes are only used by hand.',
  ['toolbox/src_mex/mex_shell.cc', 'toolbox/src_mex/mex_mesh.cc', 'toolbox/src_mex/mex_flat.cc', 'toolbox/src_mex/mex_triangleground.cc', 'toolbox/src_mex/mex_utils.hh', 'toolbox/lib/enve_shell.m', 'toolbox/lib/enve_mesh.m', 'toolbox/lib/enve_flat.m', 'toolbox/lib/enve_triangleground.m'],
  [('argument checks and conversions', 'toolbox/src_mex/mex_utils.hh and the do_* functions of each gateway'), ('handles', 'toolbox/src_mex/mex_utils.hh mex_class_handle')],
  state=[('mex_class_handle', 'owns the object behind a MATLAB handle', 'toolbox/src_mex/mex_utils.hh')],
  observe=['mexFunction outputs and errors, mexLock count, live allocations after deletion'])

p('C21', 'Parts moved, copied and posed by hand equal parts made new',
  'Any history of moves (translate, rotate, transform), copies and assignments of ground triangles, planes, ribs and shapes leaves objects equal to ones made new, by any constructor, with the resulting geometry: a moved ground triangle has the bounding box and face normal of its moved vertices and keeps its identifier and friction, a copy has all attributes of its source and then goes its own way; the comparison of two parts tells equal from clearly different ones, and negative friction and planes that do not face up are refused by every constructor. The pose of a shell set by hand composes moves as rigid motions and every way of asking for it (position, axes, angles, matrix) agrees, the rigidity check accepts right-handed orthonormal frames only, and a mesh or plane of moved parts answers queries and contact like one made new, and turning ground and wheel together about the vertical and shifting them moves the contact along with them.',
  ['histories', 'inputs', 'fault_sequences'],
  'every history of moves, copies and poses, with allocation failures in the contact steps in between',
  'No test moves a ground triangle, plane or rib, or poses a shell by hand more than once.',
  ['src/triangleground.cc', 'src/flat.cc', 'src/rib.cc', 'src/shell.cc', 'toolbox/src/triangle.cc', 'toolbox/src/plane.cc', 'toolbox/src/disk.cc'],
  [('moves', 'src/triangleground.cc and toolbox/src/{triangle,plane,disk}.cc translate, rotate, transform'), ('copies', 'src/{triangleground,flat,rib}.cc copy'), ('pose', 'src/shell.cc transform, translate, rotate, eulerAngle*, x, y, z, checkTransformation')],
  state=[('m_normal, m_bbox', 'cached face normal and bounding box', 'src/enve/triangleground.hxx'), ('m_affine', 'pose of a shell', 'src/enve/shell.hxx')],
  observe=['triangleground, flat, rib and shell public accessors', 'mesh queries and contact on moved parts'])

p('C22', 'A printed report shows the object as it is now, or the failure shows',
  'Printing a shell, shape, plane, ground triangle, box tree or geometric entity to a stream writes every attribute with the value its getter gives at that moment - for a shell its dimensions, ribs, pose and all rib and shell contact values after the latest step, in the documented order, and changes nothing about the object. If the stream refuses bytes or throws at any point, or memory runs out, the stream is left in a failed state or the call throws - a report cut short is never taken for complete - and a later print to a good stream gives the whole report.',
  ['histories', 'inputs', 'fault_sequences'],
  'every object state reached by drives, resizes and moves, and every byte at which the stream fails',
  'Tests print to the console and nobody reads it; no test has a stream that fails.',
  ['src/shell.cc', 'src/shape.cc', 'src/flat.cc', 'src/triangleground.cc', 'toolbox/src/utilities.cc', 'toolbox/src/AABBtree.cc'],
  [('reports', 'print functions of shell, shape, flat, triangleground and AABBtree'), ('entities', 'toolbox/src/utilities.cc operator<<')],
  observe=['text that arrived at the stream and its state', 'getters before and after'])

p('C23', 'Entities and boxes show their latest state in every derived value',
  'After any history of construction (by any constructor; one made without arguments holds no numbers, whatever the memory held), setting, moving, reversing, swapping, normalising, copying, assigning and merging, every point, line, ray, plane, segment, triangle, disk, ball and box equals one made new with its resulting attributes: the values it computes (centroid, length, perimeter, area, volume, barycentric coordinates, unit vectors, laying plane, distance of a plane with a unit normal to a point, box around it) are those of its current attributes, it contains its own points and not points clearly off it, it is degenerate exactly when one of its sides, its radius or its direction vanishes, two boxes overlap exactly when they share a point, a triangle has vertices and edges 0 to 2 and refuses others, and comparison tells equal from clearly different. Copies go their own way, no operation changes another object, and the constants of the library stay as they are.',
  ['histories', 'inputs'],
  'every history of constructions, settings, moves, copies and merges of every kind of entity, on any memory contents',
  'No test moves, copies or sets an entity and then asks for what it computes; most print a few values of objects just made.',
  ['toolbox/src/point.cc', 'toolbox/src/line.cc', 'toolbox/src/ray.cc', 'toolbox/src/plane.cc', 'toolbox/src/segment.cc', 'toolbox/src/triangle.cc', 'toolbox/src/disk.cc', 'toolbox/src/ball.cc', 'toolbox/src/aabb.cc'],
  [('entities', 'toolbox/src/{point,line,ray,plane,segment,triangle,disk,ball}.cc constructors, accessors, translate, rotate, reverse, transform, clamp, isInside, isDegenerated, isApprox'), ('boxes', 'toolbox/src/aabb.cc constructors, updateMaxMin, merge, clear, intersects, isInside, isApprox')],
  state=[('m_vertex, m_origin, m_direction, m_normal, m_radius', 'attributes of entities', 'toolbox/src/acme/*.hxx'), ('m_min, m_max, m_id, m_pos', 'box corners and numbers', 'toolbox/src/acme/aabb.hxx')],
  observe=['public accessors, computed values and predicates of each entity and box, and the constants'])

p('C31', 'Geometric predicates and intersections of entities are correct',
  'The intersection, collinearity, coplanarity, parallelism and orthogonality of any two entities (points, lines, rays, planes, segments, triangles, disks, balls) agree with geometry within the given tolerance.',
  ['inputs'], 'every pair of entities and tolerance', 'Tests cover none of the pairs directly.',
  ['toolbox/src/intersection.cc', 'toolbox/src/collinear.cc', 'toolbox/src/coplanar.cc', 'toolbox/src/parallel.cc', 'toolbox/src/orthogonal.cc'], [('closed formulas', 'toolbox/src/intersection.cc')])
p('C32', 'A contact step always fits the real-time budget of the simulation loop',
  'A contact step on a mesh of the size the library is meant for completes within the cycle time of the vehicle simulation that calls it.',
  ['inputs', 'configurations'], 'every mesh, pose and machine', 'The real-time-factor test prints a ratio and checks nothing.',
  ['src/shell.cc', 'src/mesh.cc'], [('box tree and candidate refinement', 'src/shell.cc setup')])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl')
with open(out, 'w') as f:
    for d in P: f.write(json.dumps(d) + '\n')
print(len(P), 'properties')
