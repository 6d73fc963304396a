#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the text of the properties lives here, in one place)."""
import json, os
R='src/runtime/render.rs'; A='src/runtime/model/animated.rs'; V='src/runtime/model/value.rs'; M='src/runtime/model/mod.rs'
F='src/runtime/model/fixed.rs'; S='src/runtime/model/spline.rs'; C='src/import/converters.rs'; B='src/import/builders.rs'
D='src/import/defaults.rs'; RT='src/runtime/mod.rs'; VE='src/runtime/vello.rs'; AN='src/schema/animation/animation.rs'
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=None))
    if state: d['anchors']['state']=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    assert len(title)<=80,(id,title); P.append(d)
SINK='calls received by a RenderSink implementation passed to Renderer::append'
LOAD='results of Composition::from_slice / from_str / from_json'

p('P01','Loading never panics, aborts or hangs',
 'Loading any byte string as an animation, through any of the loading entry points, returns either an animation or an error; it never panics, aborts the process or fails to finish. This includes documents that use Lottie features the library does not support: they load (without that feature) or are rejected with an error.',
 ['inputs'],'all byte strings of any content, and all parsed JSON values nested up to 128 levels (the limit of the text parser)',
 'The unit tests parse six small well-formed documents; no test feeds damaged, unsupported or hostile input.',
 [RT,C,B,AN,'src/schema/layers/mod.rs','src/schema/assets/mod.rs','src/schema/animated_properties/shape_property.rs'],
 [('deserialisation into the schema types','src/schema/**'),('conversion of the schema to the runtime model',C)],[LOAD])
p('P02','Rendering never panics, overflows the stack or runs forever',
 'Every animation that loads can be rendered at any frame number with any caller transform and alpha: rendering returns normally after a bounded number of drawing calls. This holds also when layer parents, track-matte references or precomposition references are dangling, refer to the layer itself, or form cycles.',
 ['inputs'],'all loadable documents with numbers up to 1e6 and nesting of precompositions up to 50; all frames (negative, fractional, huge, infinite, NaN), transforms and alphas',
 'No existing test calls the renderer at all (the only rendering code is a no_run doc test).',
 [R,A,V],[('parent-chain cycle guard','compute_transform in '+R),('matte / precomposition recursion','render_layer in '+R)],[SINK])
p('P03','Drawing calls are balanced and properly nested',
 'In every render each pushed layer or clip is popped exactly once, each begun layer group is ended exactly once, and the two kinds of bracket nest properly (nothing pushed inside a layer group is still open when that group ends). The whole output lies inside one outermost clip, which is the rectangle from the origin with the composition\'s width and height under the caller\'s transform, and nothing follows its pop.',
 ['inputs'],'all loadable documents, all frames, caller transforms and alphas',
 'No test observes the sink; balance depends on which combination of masks, mattes, precompositions and activity ranges meets at a frame.',
 [R],[('push/pop counting','append and render_layer in '+R)],[SINK])
p('P04','Finite animations produce finite drawing calls',
 'If every number in the document and the caller\'s transform, alpha and frame are finite, then every coordinate, transform entry, colour component, gradient point, stop offset and stroke width handed to the renderer is finite (never NaN or infinite). This includes frames that coincide exactly with the first or last keyframe, single-keyframe properties, zero scales and degenerate shapes.',
 ['inputs'],'all loadable documents with finite numbers up to 1e6 in magnitude (easing handles up to 10) and up to five levels of nested groups and precompositions (so that products of scales and opacities stay representable), all finite frames up to 1e6',
 'Non-finite values arise only at exact coincidences (0/0 at a keyframe time, zero length paths); no test evaluates a keyframe.',
 [V,A,S,R],[('interpolation weight','Time::frames_and_weight in '+V),('trim / star / path evaluation',A)],[SINK])
p('P05','All loading entry points agree',
 'For any input, loading it from a string, from bytes and from an already parsed JSON value either all fail or all succeed with the same animation, which draws the same thing at every frame. Bytes that are not UTF-8 inside a name or identifier of the document are rejected by every byte entry point, never replaced.',
 ['inputs'],'all texts: arbitrary ones for the agreement of string and bytes, and JSON without duplicate object keys for the agreement with the parsed value; numbers whose decimal text has at most 15 significant digits',
 'Only the from_json entry point of the schema type is exercised, on one fixed document each.',
 [RT,AN],[('three constructors','Composition::{from_slice,from_json} and FromStr in '+RT)],[LOAD,SINK])
p('P06','Serialising the document model loses nothing',
 'Parsing a document into the public document model and serialising that model (by serde or by displaying it) gives a document with the same value for every recognised field that was present and no invented values. Parsing that output again gives an equal model, and the animation loaded from it draws the same thing at every frame.',
 ['inputs'],'all valid documents made of recognised fields, with numbers of at most 15 significant digits and 22 decimals (the range in which the JSON parser is exact)',
 'test_can_serialize only checks that serialisation of five fixed values returns Ok; nothing compares the output.',
 ['src/schema/**',AN],[('serde attributes on every schema type','src/schema/**'),('Display for Animation',AN)],['schema::Animation parsed, serialised and re-parsed'])
p('P07','Malformed documents are rejected with an error naming the bad asset',
 'A text that is not JSON, or a document in which a required field is missing, a field has the wrong JSON type, or a layer, shape or enumerated constant is of an unknown kind, is rejected with an error rather than loaded. If the fault lies inside an asset, the error message contains that asset\'s id and the underlying cause.',
 ['inputs'],'all single-fault corruptions of valid documents (deleted required field, wrong type, unknown kind, keyframed path lacking its start shape before the last keyframe), at any position and depth',
 'No existing test checks that anything is rejected.',
 ['src/schema/assets/mod.rs','src/schema/layers/mod.rs','src/schema/shapes/mod.rs','src/schema/animated_properties/shape_property.rs','src/error.rs'],
 [('asset discriminator with id-bearing errors','src/schema/assets/mod.rs'),('layer discriminator','src/schema/layers/mod.rs'),('keyframe start validation','src/schema/animated_properties/shape_property.rs')],[LOAD,'the Display text of the error'])
p('P08','Unrecognised content and field order do not change the picture',
 'Adding unrecognised fields to any object, reordering the fields of any object, changing whitespace, or adding editor-only data (names of shapes, markers, metadata, expressions, property indices) leaves every frame\'s drawing calls unchanged. Well-formed shape modifiers that the library models but does not draw (rounded corners, pucker/bloat, offset path, merge, twist, file-level repeaters) are skipped without affecting their sibling shapes.',
 ['inputs'],'all valid documents, all insertions of such content, all frames',
 'Tests use fixed minimal documents in one field order.',
 ['src/schema/**',C],[('permissive deserialisation','src/schema/**'),('shapes that convert to nothing','conv_shape in '+C)],[SINK])
p('P09','The loaded composition reproduces the document header and layer table',
 'A loaded animation reports the document\'s in/out frame range, frame rate, width and height. It contains one layer per document layer in document order - at top level and in each precomposition asset, keyed by asset id - each with its name, active frame range, start frame, time stretch, blend mode (none for normal), precomposition size and parent resolved to the position of the layer with that index, and with one mask per document mask that has a shape.',
 ['inputs'],'all valid documents with unique layer indices and asset ids',
 'The four conversion tests look at hidden/matte flags of one hand-made layer.',
 [RT,C,B],[('header conversion','conv_animation in '+C),('per-layer setup',B),('index map for parents','process_layers in '+C)],['public fields of the loaded Composition'])
p('P10','Keyframed properties follow their keyframes',
 'Every keyframed number, vector, point, size or colour takes its first keyframe\'s value before that keyframe, its last keyframe\'s value after that one, and exactly a keyframe\'s value at that keyframe\'s time. Between two keyframes it keeps the earlier value if that keyframe is a hold keyframe, and otherwise moves from the earlier to the later value along the cubic easing curve given by the earlier keyframe\'s handles, or linearly if it has none.',
 ['inputs'],'every animatable property the library draws with; any number of keyframes at increasing times (also fractional, negative, far apart); easing handles with x in [0,1] and any y; all frames',
 'No test evaluates a keyframed value.',
 [V,C,A],[('keyframe lookup and weight','Time::frames_and_weight in '+V),('easing','Tween for f64 in '+V),('keyframe conversion','conv_keyframes / conv_scalar in '+C)],[SINK])
p('P11','Keyframed paths morph between their key shapes',
 'A keyframed path is, at each keyframe, exactly that keyframe\'s shape; it stays at the first shape before and at the last shape after the keyframes. Between keyframes every vertex and tangent moves from the keyframe\'s shape towards its explicit end shape if it has one and towards the next keyframe\'s shape otherwise, following the keyframe\'s easing (or not at all on a hold keyframe); a last keyframe that gives only a time repeats the previous end (or else start) shape.',
 ['inputs'],'all keyframed paths of layers\' shapes and masks with equal vertex counts whose keyframes are all open or all closed, all frames',
 'No test evaluates a keyframed path.',
 [A,S,C,'src/schema/animated_properties/shape_property.rs'],[('spline evaluation','Spline::evaluate in '+A),('keyframe conversion incl. omitted last shape','conv_shape_geometry in '+C)],[SINK])
p('P12','What is drawn depends on values and time, not on how they are encoded',
 'A property given as a constant draws the same at every frame as the same property given by keyframes that all hold that constant, and a position split into x and y draws the same as the joined one. Shifting every time of the top-level timeline (in/out points, start times and keyframe times of the document and its top-level layers) by the same amount draws at the equally shifted frame exactly what the original draws.',
 ['inputs'],'all valid documents, all frames, all shifts',
 'Constant and keyframed properties go through separate evaluation code for transforms, strokes, brushes, gradients, trims and stars; no test compares them.',
 [M,A,V,C],[('fixed / animated split','into_model functions in '+A),('dispatch',M)],[SINK])
p('P13','The right layers are drawn, once each, in back-to-front order',
 'At a frame, exactly the layers whose half-open active range [in, out) contains it are drawn, once each, last layer of the document first; layers outside their range draw nothing, layers marked as matte sources are drawn only as mattes, and hidden, null, solid and image layers contribute no drawing. Each drawn layer (also inside precompositions and as a matte) is bracketed by one begin/end group call carrying its name and its position in its layer list.',
 ['inputs'],'all valid documents, all frames including exactly the in and out points',
 'No test renders; the activity range, the draw order and the group annotation are not observed anywhere.',
 [R,C],[('layer loop and range test','append / render_layer in '+R),('hidden layers','conv_layer in '+C)],[SINK])
p('P14','A transform maps anchor, scale, skew, rotation, position in that order',
 'The transform of a layer or shape group moves the anchor point to the origin, scales by the percentages, skews by the skew angle along the skew axis, rotates clockwise by the rotation in degrees and translates to the position, in that order, each part taken at the current frame. A missing part has no effect (anchor and position offset zero, scale 100%, rotation and skew zero), and split positions act like joined ones.',
 ['inputs'],'all values and keyframings of the parts, on layers and on groups, all frames',
 'No test evaluates a transform.',
 [A,C,D],[('matrix composition','Transform::evaluate in '+A),('defaults of missing parts',D),('conversion','conv_transform / conv_shape_transform in '+C)],[SINK])
p('P15','Layers inherit their whole chain of parents\' transforms',
 'What a layer draws is placed by the caller\'s (or enclosing precomposition\'s) transform, then its parents\' transforms from the outermost parent inwards, then its own. Parents count whether or not they are hidden, outside their active range, of a non-drawing kind, or listed before or after the child, they pass on neither opacity nor masks, and a parent reference to a non-existing layer is ignored.',
 ['inputs'],'all parent graphs (any depth, order, numbering), all frames',
 'No test has a parented layer.',
 [R,C],[('parent chain walk','compute_transform in '+R),('index resolution','process_layers in '+C)],[SINK])
p('P16','Opacities multiply along the containment chain',
 'The alpha with which a solid fill or stroke, or a gradient fill or stroke, is painted is its own colour\'s alpha times the product of the opacities (as percentages at the current frame) of that paint, its enclosing groups, its layer and every enclosing precomposition layer, times the caller\'s alpha. Parents, siblings and later shapes do not affect it.',
 ['inputs'],'all nestings of groups and precompositions, static or keyframed opacities in [0,100], all frames, caller alphas in [0,1]',
 'No test renders with an opacity.',
 [R,C,A],[('alpha accumulation','render_layer / render_shapes / DrawData in '+R),('opacity of paints','conv_draw in '+C)],[SINK])
p('P17','Masks clip exactly their own layer',
 'For each mask of a layer that has a shape, the layer\'s content is drawn inside a clip of that mask\'s path at the current frame, placed by the same transform as the layer, the masks nesting in document order. The clips enclose all of the layer\'s own content (including a precomposition\'s layers) and nothing of any other layer.',
 ['inputs'],'all numbers of masks, static or keyframed mask paths, on shape and precomposition layers, all frames',
 'No test has a mask.',
 [R,B],[('mask clips','render_layer in '+R),('mask conversion',B)],[SINK])
p('P18','Track mattes composite the right matte over the right layer',
 'A layer with an alpha or luma track matte is drawn as an isolated layer containing first its matte and then a second layer, holding the layer\'s content, composited source-in (source-out for the inverted modes). The matte is the layer whose index the document names, or without a name the nearest preceding matte-source layer, provided no other matted layer comes between the two; it is placed by its own transform chain, obeys its own active range, and a missing matte leaves the layer drawn plainly.',
 ['inputs'],'all arrangements of matte sources and matted layers, at top level and in precompositions, all frames',
 'Two tests look at the is-matte flag only; pairing and compositing are unobserved.',
 [C,B,R],[('matte pairing','process_layers in '+C),('compositing layers','render_layer in '+R)],[SINK])
p('P19','A precomposition layer shows its asset at the mapped time and place',
 'A precomposition layer draws the layers of the asset it names as that asset\'s own timeline would at local frame (frame - start) / stretch, placed by the layer\'s transform and with its opacity, at every nesting depth. Each instance of an asset is independent of other instances, and naming a non-existing asset draws nothing.',
 ['inputs'],'all assets, start frames, stretches, nesting depths and repeated instances, all frames',
 'No test renders a precomposition.',
 [R,B,'src/schema/layers/precomposition.rs'],[('instance rendering and time mapping','render_layer in '+R),('start time and stretch conversion','setup_precomp_layer in '+B)],[SINK])
p('P20','Caller transform and alpha act uniformly on the whole picture',
 'Rendering with caller transform T gives the same sequence of drawing calls as rendering with the identity, every transform in it multiplied on the left by T. Rendering with caller alpha a gives the same sequence with every paint\'s alpha multiplied by a; neither changes paths, colours, gradients, strokes, names or structure.',
 ['inputs'],'all documents, frames, invertible affine transforms and alphas in (0,1]',
 'No test renders with a transform or an alpha.',
 [R],[('transform and alpha propagation','append / render_layer in '+R)],[SINK])
p('P21','Rectangles, ellipses and static paths have their specified outline',
 'A rectangle is centred on its position with its size, its corners rounded by the given radius limited to half the shorter side; an ellipse is centred on its position with its size as diameters; a path visits its vertices in order with its tangents (relative to the vertex) as Bezier controls and closes only if marked closed. All parts are taken at the current frame, missing tangents count as zero.',
 ['inputs'],'all positions, sizes (of rectangles also negative, meaning their magnitude), radii, vertex lists and keyframings, all frames',
 'The tests deserialise one ellipse and never evaluate geometry.',
 [A,S,C],[('shape evaluation',A),('spline to path',S),('bezier conversion','conv_spline in '+C)],[SINK])
p('P22','Stars and polygons have their specified vertices',
 'A star with n points has 2n vertices alternating between outer and inner radius, a polygon has n vertices at the outer radius; they are equally spaced in angle clockwise around the position, starting straight up turned by the rotation, and the outline is closed. With zero roundness all edges are straight; with roundness each vertex gets two opposite handles tangential to its circle whose length is proportional to its roundness and radius. The point count is rounded to the nearest integer, and zero points draw nothing.',
 ['inputs'],'all point counts (0..200, fractional, and up to 100,000), radii, roundnesses, rotations and keyframings, all frames',
 'No test contains a star.',
 [A,C],[('star evaluation','Star::evaluate in '+A),('conversion','conv_polystar_geometry in '+C)],[SINK])
p('P23','Each paint covers exactly the preceding shapes of its group, in paint order',
 'A fill or stroke paints exactly the shapes that precede it in its own group, including those inside nested groups (under those groups\' transforms), and nothing from outside its group or after it. Within a layer, paints that come earlier are painted on top of (after) paints that come later; every paint covers each of its shapes exactly once, consecutive shapes of one group together as one outline, and hidden shapes or paints count as absent.',
 ['inputs'],'all nestings and orders of shapes, paints and groups, all frames',
 'No test renders shapes.',
 [R,C],[('geometry and draw stacks','render_shapes and Batch in '+R),('shape conversion','conv_shape in '+C)],[SINK])
p('P24','Solid fills and strokes carry the document\'s colour and stroke style',
 'A solid fill paints with its colour at the current frame and no stroke style; a solid stroke paints with its colour, width at the current frame, line cap, line join and (if given) miter limit.',
 ['inputs'],'all colours, widths, caps, joins, miter limits and keyframings, all frames',
 'No test contains a fill or stroke.',
 [C,A,R],[('paint conversion','conv_draw in '+C),('stroke evaluation','Stroke::evaluate in '+A)],[SINK])
p('P25','Gradients carry the document\'s geometry, stops and opacity',
 'A gradient fill or stroke is linear from its start to its end point, or radial around the start point with the start-end distance as radius, both taken at the current frame, with one stop per declared colour at its offset and colour. Stops are opaque without opacity data and follow the opacity data when it is a single two-point ramp (ends exact, linear in between away from the ends); keyframed stops interpolate offset, colour and alpha with easing and hold, and a gradient stroke carries width, cap, join and miter limit.',
 ['inputs'],'all stop counts, points, types and keyframings; opacity data absent or one two-point ramp from offset 0 to 1; all frames',
 'No test contains a gradient.',
 [C,A],[('stop conversion','conv_stops / conv_gradient_colors in '+C),('gradient evaluation','Gradient / ColorStops in '+A)],[SINK])
p('P26','Trim paths keep exactly the requested arc-length segment',
 'A trim leaves, of every preceding outline of its group (including nested groups), exactly the part between the start and end percentages of its arc length, whichever is smaller first, rotated by the offset in degrees with wrap-around past the end; consecutive shapes of one group count as one outline, traversed in order without joining its separate pieces. An empty range removes the outlines, a full range changes nothing, and shapes outside the group or after the trim are untouched.',
 ['inputs'],'all start/end in [0,100] and offsets (also negative or beyond 360), static or keyframed, over rectangles, ellipses, stars and paths with several pieces, any position in the group, several trims',
 'No test contains a trim path.',
 [R,F,A],[('range normalisation','Trim::normalized in '+F),('arc-length cutting','Batch::apply_trim in '+R)],[SINK])
p('P27','A repeater draws each copy once, moved and faded step by step',
 'A repeater in the runtime model replaces the shapes and paints before it in its group by the declared number of copies: copy i is moved by the repeater transform applied (offset + i) times - rotation and scale about the anchor, plus position - and painted once, each paint\'s alpha multiplied by start opacity + i*(end-start)/copies. Zero copies draw nothing, and shapes after the repeater or outside its group are unaffected.',
 ['inputs'],'animations whose runtime model contains repeaters (built through the public model types) over shapes and paints at the repeater\'s own level, 0..12 copies, all frames',
 'Repeaters are not exercised by any test.',
 [R,F,A],[('repetition of geometries and paints','Batch::repeat in '+R),('copy transform','Repeater::transform in '+F)],[SINK])
p('P28','Rendering is a pure function of animation, frame, transform and alpha',
 'The drawing calls for an animation, frame, transform and alpha are the same whatever the renderer drew before: other frames in any order, other animations, the same call repeated, or a render that a panic of the receiving scene cut short, and the same as a fresh renderer\'s. Rendering never modifies the animation, and a clone of an animation draws the same as the original.',
 ['histories'],'all sequences of renders of any animations with one renderer, including renders cut short at any drawing call by a panic in the receiving scene',
 'No test renders even once; the reused buffers of the renderer only matter across calls.',
 [R],[('reused buffers','Batch and Renderer in '+R)],[SINK],[('batch, mask_elements','scratch buffers that survive between renders','Renderer in '+R)])
p('P29','One animation can be rendered from many threads at once',
 'Several threads that share one loaded animation, each with its own renderer, each receive exactly the drawing calls that a single-threaded render of the same frame produces, and loading documents concurrently gives the same animations as loading them one after another. No execution contains a data race or undefined behaviour.',
 ['schedules','inputs'],'all interleavings of up to 8 rendering and loading threads',
 'The tests are single-threaded and never render.',
 [R,RT,D],[('immutable shared composition',RT),('lazily initialised defaults',D)],[SINK,'Miri (data-race and undefined-behaviour detector)'],[('lazy statics','default property values shared by all loads',D)])
p('P30','Memory does not grow with the number of frames rendered',
 'Once a renderer has drawn a set of frames a few times (so that its buffers have reached the largest of them), drawing the same frames again any number of times retains no additional memory, and dropping renderer and animation returns everything that was allocated for them. However many different frames are drawn, what the renderer retains stays bounded by what its largest single render needs, and the memory a single render takes is in proportion to what it draws.',
 ['histories'],'all animations and all repeated sequences of frames',
 'Leaks and uncleared buffers show only over many renders; no test renders.',
 [R],[('buffer clearing','Batch::clear and apply_trim / repeat side buffers in '+R)],['live heap bytes measured by an instrumented global allocator'],[('batch, mask_elements','scratch buffers','Renderer in '+R)])
p('P31','The built-in Vello backend encodes exactly the drawing calls',
 'Rendering into a Vello scene, by appending to a scene or by asking for a new one, encodes exactly the picture described by the drawing calls a custom renderer receives: non-zero fills, strokes with their style, clips and blend layers with their transforms, brushes and paths, in order, with every layer closed. Appending leaves what the scene already contained in place.',
 ['inputs'],'all documents, frames, transforms and alphas',
 'The only use of the backend in tests is a no_run doc example.',
 [VE,R],[('RenderSink for vello::Scene',VE)],['the encoding of the resulting vello::Scene compared with an independent replay of recorded sink calls'])
p('P32','A whole animation is drawn as specified by its document',
 'For documents that combine layers, parents, masks, mattes, precompositions, groups, shapes, paints, trims and keyframes arbitrarily, the complete sequence of drawing calls at every frame equals the one obtained by independently interpreting the document. In particular features do not interfere with one another.',
 ['inputs'],'all documents composed of supported features, all frames',
 'No test covers a single feature end to end, let alone their combinations.',
 [R,C,B,A,V,M],[('import','src/import/**'),('evaluation and rendering','src/runtime/**')],[SINK])
p('P33','Fixing parts of the model at a frame leaves that frame unchanged',
 'In a loaded animation, replacing any animated parts of the public model (values, transforms, outlines, brushes, colour stops, strokes, trims, repeaters, opacities, mask shapes) by the fixed form of what they evaluate to at a frame leaves the drawing calls at that frame unchanged. A part that reports itself as fixed evaluates to the same value at every frame, and converting an animated part to its model form does not change what it evaluates to at any frame (brushes: with any alpha).',
 ['inputs'],'all documents, frames and sets of replaced parts (parts of an asset only when every instance shows the asset at one frame); outlines may also be given with quadratic curves instead of the same curves of degree three',
 'Users edit or build the model through its public types; no test evaluates a model, and fixed and animated forms take different code paths.',
 [M,A,V,R],[('fixed and animated forms',M+' and '+A),('is_fixed and into_model',A),('evaluation',V)],[SINK,'the values the public evaluate functions return'])
p('P34','The loaded model carries every part of the document, drawn or not',
 'In a loaded animation every layer of the public model - also one that is hidden, out of its range, used only as a parent or matte, or in an asset that nothing shows - has the transform, opacity and masks (outline and opacity, 100 if absent) of its document layer; a visible precomposition layer is an instance of the asset it names with the time remapping given, a visible shape layer has the document\'s visible groups, outlines, fills, strokes, gradients and trims in order and nesting, and any other layer has no content. Evaluated at any frame, each part has the value the document gives it at that frame.',
 ['inputs'],'all documents composed of supported features, all parts, all frames; groups without visible parts may be absent',
 'Users read the model through its public types (and draw mask opacities or time remapping with their own sink); what is not drawn shows in no rendering, and no test looks at any part.',
 [C,B,M,A,V],[('conversion of layers, masks and shapes',C+' and '+B),('public model',M)],['the public model types and their evaluate functions'])
p('P35','Parts of a hand-made model that do not fit count as absent',
 'A composition that was assembled or altered through the public model renders normally, without panic and with balanced calls, even if its parts do not fit together. A parent position outside the layer list is ignored, a matte position outside it gives an empty matte, an instance of an unknown asset and a layer with an empty or reversed frame range draw nothing. A keyframed value that has no keyframes or no values is its default at every frame (what the caller of evaluate_or asks for, otherwise the default of its type; transparent for a solid colour), a keyframed outline without keyframes, shapes or points is empty, colour stops without enough numbers for their count are no stops, and values or numbers beyond those that are needed do not matter. Nothing else in the picture changes.',
 ['inputs'],'all models built from the public types (element lists of fixed outlines well-formed, no exponential instance counts), all frames',
 'The model is public so that users can build and edit it; indices and lists that do not fit must not crash an application, and no test builds a model.',
 [R,V,A,M],[('lookups of parents, mattes and assets',R),('keyframe lookup',V),('outlines and colour stops',A)],['the public model types, Renderer::append and the evaluate functions'])
with open(os.path.join(os.path.dirname(__file__),'..','properties.jsonl'),'w') as f:
    for d in P: f.write(json.dumps(d,ensure_ascii=False)+'\n')
print(len(P))
