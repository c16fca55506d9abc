NOTE = 'Random exploration only: it refutes, it does not establish absence. Oracles are independent of the code under test; trusted: the harness, the compiler, libtbb/libfmt.'

prop('C01', 'BSP files follow the documented byte layout and survive load and save',
     'For every supported BSP variant (Quake, BSP2, 2PSB, Half-Life, Hexen II and its BSP2/2PSB forms, Quake II, Qbism, and so on) the writer produces a file whose header identifies the variant and whose every lump holds exactly the records given, field by field, little-endian and in the format\'s own widths. Loading any such file yields those same records (variant and game detected, texture, visibility, entity and every BSPX extension lump included), and writing the loaded file again reproduces every lump. Writing never mixes up, drops, duplicates or reorders records or lumps.',
     ['inputs', 'configurations'], 'every BSP variant, every combination of lump contents representable in it, every set of BSPX lumps',
     'The tests load and save a few compiled maps (and none of those run here); no test looks at the bytes of a lump, and most variants, empty lumps, unusual BSPX names and extreme field values are never written.',
     ['common/bspfile.cc', 'common/bspfile_q1.cc', 'common/bspfile_q2.cc', 'common/bspfile_generic.cc', 'common/bspfile_common.cc', 'common/bspxfile.cc', 'include/common/bspfile_*.hh'],
     [('LoadBSPFile / WriteBSPFile', 'common/bspfile.cc'), ('stream_read/stream_write of each record', 'common/bspfile_q1.cc, common/bspfile_q2.cc'), ('bspx lump table', 'common/bspxfile.cc')],
     'generated files checked against an independent byte-level model of every format (both directions)',
     NOTE + ' Expected bytes come from a separate encoder written from the format descriptions.')

prop('C02', 'Converting a BSP to and from the generic form loses nothing or is refused',
     'Converting any loaded BSP to the tools\' generic in-memory form and back to its own variant gives back the same data: every field is equal, apart from bounding boxes, which may only grow to the integers that enclose them. Converting to another variant of the same game keeps every value the target can represent and converts contents and surface flags to their counterparts. When a value does not fit in the target variant the conversion is refused (reported as an overflow or error) instead of writing a truncated or wrapped value.',
     ['inputs', 'configurations'], 'every BSP variant pair of a game family and every value of each field, including those just inside and outside the narrower type',
     'Tests convert a few compiled maps and only look at high-level features; no test drives a field past a 16-bit limit or compares every field after a conversion.',
     ['common/bspfile.cc', 'common/bspfile_q1.cc', 'common/bspfile_q2.cc', 'common/bspfile_generic.cc', 'include/common/numeric_cast.hh', 'include/common/bspfile_common.hh'],
     [('ConvertBSPFormat', 'common/bspfile.cc'), ('numeric_cast range checks', 'include/common/numeric_cast.hh')],
     'generated BSPs, round-trip and field-by-field differential against an independent narrowing model', NOTE)

prop('C04', 'Visibility rows compress and decompress without loss or overrun',
     'Compressing any visibility row and decompressing the result gives back the same row, the compressed form is the run-length encoding the game engines read (a zero byte followed by a run length of 1 to 255), and a row is always a whole number of bytes covering every cluster or leaf. Decompressing any malformed or truncated row never reads outside its input or writes outside the row. For a whole map, decompressing all rows gives each leaf or cluster its own row, and a leaf is reported visible exactly when its bit is set.',
     ['inputs'], 'all row contents and lengths, all malformed encodings, all maps with shared or missing rows',
     'No test compresses or decompresses a row; the run lengths 255/256, trailing zeros and truncated inputs are never reached.',
     ['vis/vis.cc', 'common/bsputils.cc', 'include/common/bsputils.hh', 'common/bspfile_generic.cc'],
     [('CompressRow / DecompressRow', 'vis/vis.cc, common/bsputils.cc'), ('DecompressAllVis', 'common/bsputils.cc'), ('Pvs_LeafVisible', 'common/bsputils.cc')],
     'round-trip plus reference run-length codec over generated rows; bounds canaries for hostile rows', NOTE)

prop('C05', 'Point and face queries on a BSP agree with its tree and geometry',
     'Finding the leaf, the contents (in any collision hull), the node or the face at a point gives the answer of walking the tree\'s planes to that point: the leaf on whose side of every ancestor plane the point lies (a point on a plane counts as in front), solid or empty per the hull\'s clip nodes, and the face whose plane and outline contain the point and whose normal matches. Face accessors (vertices, edges, centroid, plane and its flipped side, texture name and flags, extents of the outline, per-leaf faces and brushes, model lookup and bounds) report exactly what the lumps say for both orientations of every edge and plane.',
     ['inputs'], 'all trees, planes (axial and not), points away from plane boundaries, faces and edge orientations',
     'Tests query a handful of points in a few fixed maps; arbitrary trees, flipped edges and faces, clip-node hulls and submodels are not enumerated.',
     ['common/bsputils.cc', 'include/common/bsputils.hh'],
     [('BSP_FindLeafAtPoint, Light_PointContents, BSP_FindFaceAtPoint, BSP_FindNodeAtPoint', 'common/bsputils.cc'), ('Face_* accessors', 'common/bsputils.cc')],
     'generated BSP trees checked against a brute-force walk over an explicit geometric model', NOTE)

prop('C03', 'Damaged BSP files are refused or loaded safely, never read out of bounds',
     'Loading any byte string as a BSP (truncated, with lump offsets, sizes, counts, texture or visibility tables or extension-lump tables changed to any value) either succeeds or ends with a reported error; it never reads or writes outside the file\'s buffer, loops forever or allocates without bound. A file with an unknown version, a header cut short, a lump outside the file, or a lump holding a fraction of a record is refused. Decoding a malformed BSPX extension lump likewise stays inside that lump.',
     ['inputs'], 'every byte-level and field-level damage to a valid file of every variant, and every byte string as an extension lump',
     'Tests only load files the tools wrote themselves; no test damages one.',
     ['common/bspfile.cc', 'common/bspfile_q1.cc', 'common/bspfile_q2.cc', 'common/bspfile_generic.cc', 'common/bspxfile.cc', 'include/common/cmdlib.hh'],
     [('lump_reader', 'common/bspfile.cc'), ('dmiptexlump_t / mvis_t stream_read', 'common/bspfile_generic.cc'), ('memstream bounds', 'include/common/cmdlib.hh')],
     'structured mutation fuzzing of model-built files under AddressSanitizer/UBSan, with a refusal oracle for the damages named', NOTE)

prop('C06', 'Lightmap extents cover the face and luxel addressing is exact',
     'For every face and luxel scale the lightmap has the size the engines compute (floor of the least and ceiling of the greatest scaled texture coordinate, inclusive), every vertex lands inside it, world, texture and luxel coordinates convert to one another and back on the face\'s plane, and the face\'s bounds and bounding sphere enclose it; world-units-per-luxel grids and explicit (decoupled) sizes and transforms are honoured the same way. Reading a luxel returns exactly the byte(s) stored for that luxel and style page in the lightmap lump or the .lit data. A .lit file loads exactly, and one with a wrong magic, version or short header is refused.',
     ['inputs', 'configurations'], 'all convex faces, planes, texture projections, luxel scales and lightmap contents',
     'The tests check the extents of a few faces of fixed maps and no .lit file.',
     ['common/bsputils.cc', 'include/common/bsputils.hh'],
     [('faceextents_t', 'common/bsputils.cc'), ('LM_Sample, LoadLitFile', 'common/bsputils.cc')],
     'generated faces against an exact (long double) reference of the engine rule; inverse and containment laws', NOTE)

prop('C07', 'Entity text is read and written without loss, and edits do what they say',
     'Parsing entity text gives every entity\'s key/value pairs in order, whatever the layout, and writing them and parsing again gives the same pairs in the same order; writing is a fixed point. Text that ends inside an entity is refused. Entity lookups, insertion, replacement, removal, renaming and numeric and vector reads act as on an ordered list of unique keys: they touch only the named key and read exactly the numbers the text spells.',
     ['inputs', 'histories'], 'all entity lists, all layouts of the text, all sequences of edits',
     'Tests parse a few literal strings; order preservation under edit sequences and arbitrary values are not covered.',
     ['common/entdata.cc', 'include/common/entdata.h'],
     [('EntData_Parse, EntData_Write', 'common/entdata.cc'), ('entdict_t', 'common/entdata.cc')],
     'round trip over generated entities and layouts; stateful model of an ordered dictionary', NOTE)

prop('C10', 'The tokenizer splits text by the documented rules and never leaves it',
     'For every text the tokenizer returns exactly the tokens of the quake map grammar (blanks, // comments and ; comments skipped, quoted strings kept whole, optional escapes, same-line, optional, peek and comment flags obeyed), reports for each whether it was quoted and on which line it stands, and reports the end of the text exactly once the tokens are used up. Saving and restoring its state resumes at the same token and line. It never reads outside the given text, and the argument form returns exactly the given words.',
     ['inputs', 'histories'], 'all texts and all sequences of parse calls with any flags',
     'Unit tests call the tokenizer on a few literals; flags are not combined and no test ends a text at an awkward place.',
     ['common/parser.cc', 'include/common/parser.hh'],
     [('parser_t::parse_token', 'common/parser.cc'), ('token_parser_t', 'include/common/parser.hh')],
     'generated texts with a reference tokenizer; texts ending at an unmapped page for the bounds clause', NOTE)

prop('C08', 'A .map file is read exactly and written without loss',
     'Parsing a .map gives every entity, key/value pair, brush and face in order, with each face\'s plane points, plane, texture name, texture definition (standard, Valve 220 or QuArK), surface values and line number exactly as spelled, whatever the layout and comments, and with the texture vectors the definition means; faces without a normal or repeating a plane, and empty brushes, are left out and unusable projections are replaced by the default one. Writing it and parsing again gives the same map and the same text. Text that is cut short, has a bracket or number missing or misspelt, or has text outside entities is refused.',
     ['inputs'], 'all map texts of the supported formats, all layouts, all damages of the named kinds',
     'No test compares the parsed map field by field or writes one; only a few fixed maps are parsed.',
     ['common/mapfile.cc', 'include/common/mapfile.hh', 'common/parser.cc'],
     [('map_file_t::parse / write', 'common/mapfile.cc'), ('brush_side_t::set_texinfo', 'common/mapfile.cc')],
     'generated map texts against an independent model of the format; parse-write-parse round trip; refusal oracle for damaged texts', NOTE)

prop('C09', 'Converting texture definitions keeps textures where they were',
     'Converting a map to the Valve 220 form leaves every texture coordinate of every face unchanged everywhere; converting to the standard form leaves the coordinates on the face unchanged whenever that form can express them (up to whole repeats of a texture of known size, to which shifts are reduced), and otherwise keeps the T axis and the position at the face\'s first point. Conversion to brush primitives gives the matrix that maps the face\'s own axes to the same coordinates in texture sizes, and is refused without a known texture size. Plane points, texture names and surface values are never altered, and faces already in the target form are left alone.',
     ['inputs', 'configurations'], 'all faces, all texture definitions in the three source forms and all target forms',
     'No test converts a map.',
     ['common/mapfile.cc', 'include/common/mapfile.hh', 'common/qvec.cc'],
     [('brush_side_t::convert_to', 'common/mapfile.cc'), ('TexDef_BSPToQuakeEd, TexDef_BSPToValve, TexDef_BSPToBrushPrimitives', 'common/mapfile.cc')],
     'metamorphic relation: texture coordinates before and after conversion, evaluated by an independent model of each form', NOTE)

prop('C11', 'Settings are parsed, clamped and overridden by the documented rules',
     'Every option, on a command line or as a map or game key (with any leading hyphens or underscores, under any of its names, and inverted by a "no" prefix where that exists), sets exactly the named setting to the value its type gives the argument: booleans may omit theirs, numbers are clamped to their range and never wrapped, colours and angles are converted, sets accumulate, enumerations match names ignoring case. A value only replaces one from an equal or weaker source (default < game < map < command line); resetting and copying restore exactly the default or the copied state. Unknown options and malformed or missing arguments on the command line are refused with a message, and everything after the options is returned in order. The help lists every option with its names and what it does.',
     ['inputs', 'histories', 'configurations'], 'all sets of settings, all argument lists, all sequences of command lines, keys, resets and copies',
     'Unit tests parse a few fixed argument lists; precedence histories, inverted keys and out-of-range numbers are not explored.',
     ['common/settings.cc', 'include/common/settings.hh', 'common/parser.cc'],
     [('setting_base::change_source', 'common/settings.cc'), ('setting_*::parse', 'common/settings.cc'), ('setting_container::parse', 'common/settings.cc')],
     'stateful model-based generation: random containers and histories against a model of every setting', NOTE)

prop('C12', 'Files are found in the documented search order and loaded exactly',
     'For any set of registered directories, PAK and WAD archives, looking up a name finds it where the documented order says (a path naming an archive first, then loose files, directories newest first and archives newest first, or the other way round when archives are preferred; archive names ignore case, and directories are never taken for files), and loading returns exactly that file\'s bytes. Adding an archive twice gives the same one; a damaged archive (bad magic, short header or table) is refused, and an entry lying outside its archive loads nothing, without affecting other files. Splitting and resolving archive paths and adding default extensions act on exactly the named component.',
     ['inputs', 'histories', 'configurations'], 'all sets of archives and directories, all file names up to the full field width, all sequences of additions and lookups',
     'No test reads a PAK or WAD made for the purpose; search order, full-width names and damaged tables are never exercised.',
     ['common/fs.cc', 'include/common/fs.hh'],
     [('fs::where', 'common/fs.cc'), ('pak_archive, wad_archive, directory_archive', 'common/fs.cc')],
     'stateful generation of archives and lookups against a model of the search path; independent PAK/WAD encoder', NOTE)

prop('C13', 'Textures load with exactly the pixels, size and metadata their files give',
     'Loading a .wal, .mip, .tga or .png image gives exactly the pixels, sizes and metadata stored in it, indexed pixels taking their colour from the game\'s palette (Quake II\'s from a valid pics/colormap.pcx, a Half-Life texture\'s from its own) with index 255 transparent; files cut short give no pixels. A texture name stands for the first readable file in the documented order of extensions, and .wal_json metadata overrides exactly the fields it gives of the .wal\'s. Loading a BSP\'s textures fills the cache, whatever the letter case, with each texture\'s pixels or those of its replacement, the ratio of actual to declared size, and the given colour or else the average of its opaque pixels with the saturation boost asked for.',
     ['inputs', 'configurations'], 'all images in these formats, all sets of candidate files, all metadata documents, all BSP texture lists of the four games',
     'Unit tests load two fixed textures; no test compares pixels, metadata or cached colours with the file.',
     ['common/imglib.cc', 'include/common/imglib.hh'],
     [('img::load_wal, load_mip, load_stb', 'common/imglib.cc'), ('img::load_texture, load_texture_meta', 'common/imglib.cc'), ('img::load_textures', 'common/imglib.cc')],
     'generated images from independent encoders; model of the search order and of the metadata merge', NOTE)

prop('C14', 'Damaged texture, palette and metadata files are handled without harm',
     'Whatever bytes a .wal, .mip, palette or .wal_json file holds, loading it ends, touches no memory outside the file\'s bytes, and gives either nothing, metadata alone, or a complete image of its declared size. An unusable pics/colormap.pcx leaves the built-in palette in force, and a usable one gives its last 768 bytes.',
     ['inputs'], 'all byte strings given as such files',
     'Tests only load intact files.',
     ['common/imglib.cc', 'include/common/imglib.hh'],
     [('img::load_wal, load_mip', 'common/imglib.cc'), ('img::init_palette', 'common/imglib.cc'), ('img::load_wal_json_meta', 'common/imglib.cc')],
     'structured mutation of generated files under AddressSanitizer with a consistency oracle', NOTE)

prop('C19', 'Portal files are read exactly, and damaged ones refused',
     'Reading a PRT1, PRT2 or PRT1-AM file gives exactly its leaf and cluster counts, every portal with its two leafs and points in order, and for each leaf the cluster the file puts it in (the identity for PRT1), for any layout of blanks and any spelling of numbers. Files that are cut short, name a leaf or cluster out of range or have a portal of fewer than 3 or more than 64 points are refused, as are forms Quake II cannot use; reading always ends and stays inside its memory. Debug portal files contain exactly the given windings.',
     ['inputs'], 'all portal files of the three forms and all damages of the named kinds',
     'Tests only read portal files that qbsp itself just wrote.',
     ['common/prtfile.cc', 'include/common/prtfile.hh'],
     [('LoadPrtFile', 'common/prtfile.cc'), ('WriteDebugPortals', 'common/prtfile.cc')],
     'generated portal files from an independent writer; structured damage with a refusal oracle, under AddressSanitizer', NOTE)

prop('C20', 'Visibility never misses a sight line and hides what cannot be seen',
     'For every portal file, each cluster\'s row in the written .bsp lists the cluster itself and every cluster that a straight line through open portals (not grazing their edges) leads to; with -visdist this holds as long as all portals passed are within that distance of each other. At the default -level a row lists no cluster that on every chain of portals (within -visdist) is hidden behind the planes separating the portals on the way, and at any -level nothing that -fast does not. -fast lists only clusters reached by portals in front of one another. All leafs of a cluster get the cluster\'s row.',
     ['inputs', 'configurations'], 'all worlds of convex leafs and portals, all sight lines, the options -level, -fast, -visdist, -targetchecks and -threads, the Quake and Quake II families',
     'Tests run vis on a few fixed maps and check a handful of leaf pairs; they cannot say that no sight line of an arbitrary world is missed.',
     ['vis/flow.cc', 'vis/vis.cc', 'include/vis/vis.hh', 'common/prtfile.cc'],
     [('RecursiveLeafFlow, ClipToSeparators', 'vis/flow.cc'), ('BasePortalVis, PortalFlow, ClusterFlow', 'vis/flow.cc, vis/vis.cc'), ('ClipStackWinding', 'vis/vis.cc'), ('visdist', 'vis/vis.cc')],
     'generated portal worlds; ray tracing as a lower bound and an independent widened portal flow as an upper bound', NOTE)

prop('C21', 'Interrupting and resuming vis never changes its result',
     'With one thread vis writes the same file every time for the same input, also when it runs on its own output. If vis is stopped at any operation on its state file, with any part of the data of that write on disk, running it again completes with the result of an uninterrupted run; finished portals of a state file count as they are, state files that are out of date or cut short make it start over, state files of another portal file are refused without touching the .bsp, -nostate neither reads nor needs them, and a finished run leaves none behind. Any number of threads gives a result that misses no sight line and stays within what -fast lists (-fast itself does not depend on it), and vis changes nothing in the .bsp but the visibility and the sounds.',
     ['inputs', 'crash_points', 'histories', 'schedules'], 'all portal worlds, every point of interruption, up to three interruptions in a row, every set of portals left to do, 1 to 8 threads',
     'No test interrupts vis, reads a state file or compares runs.',
     ['vis/state.cc', 'vis/vis.cc', 'vis/flow.cc'],
     [('SaveVisState, LoadVisState, CleanVisState', 'vis/state.cc'), ('CalcPortalVis', 'vis/vis.cc')],
     'fault injection into the state file operations of generated runs; differential against the uninterrupted run', NOTE,)

prop('C22', 'The PHS and ambient sounds follow from what can be seen',
     'In a Quake II map a cluster hears exactly the clusters that are listed in the PVS of any cluster it sees; -phsonly computes the same for the PVS already in the file and leaves that PVS alone, however often it is run. In the Quake family each leaf\'s water, sky, slime and lava sound is at full level exactly when a face textured as such (by the name\'s beginning, ignoring case; slime sounds like water) is in a leaf it sees, unless the matching -noambient option is given, and off otherwise.',
     ['inputs', 'configurations'], 'all visibilities (symmetric or not, up to thousands of clusters), all texture names and face lists, all -noambient options',
     'Tests never compare the PHS with the PVS, and look at no ambient level.',
     ['vis/vis.cc', 'vis/soundpvs.cc', 'common/bsputils.cc'],
     [('CalcPHS', 'vis/vis.cc'), ('CalcAmbientSounds', 'vis/soundpvs.cc')],
     'generated worlds and visibility tables; brute-force recomputation from the rows read back', NOTE)

prop('C15', 'Polygons are clipped, measured and stored exactly',
     'Clipping a convex polygon by a plane yields the part in front and the part behind: corners further than the epsilon stay on their side in order, cut points lie on the plane and on the crossed edge, the areas add up, and a polygon on one side is returned whole (one on the plane per keepon); clip_front and clip_back agree with clip. Area, centre, bounds, plane, edge planes, flip, translate, equality, check, removal of colinear points, dicing and building from planes, faces and boxes match exact recomputation. A winding in heap, stack or hybrid storage behaves like a list of points through any sequence of operations (stack storage refuses to overflow).',
     ['inputs', 'histories'], 'all convex polygons with extra colinear points, planes and epsilons, all operation sequences on the three storages',
     'Tests clip a few hand-picked squares.',
     ['include/common/polylib.hh', 'common/polylib.cc'],
     [('winding_base_t', 'include/common/polylib.hh'), ('winding_storage_stack_t, _heap_t, _hybrid_t', 'include/common/polylib.hh')],
     'generated polygons and planes against long double geometry; model-based storage histories against a vector', NOTE)

prop('C34', 'The vector, plane, line and sampling mathematics is right',
     'Vector and matrix arithmetic (element-wise operators, dot, cross, length, normalisation, rounding, comparison, inversion, determinants, rotations, angles), boxes (union, intersection, containment, growing, corners), point-in-polygon tests, edge planes, centroids, areas, closest points, shrinking and clipping of outlines, distances and projections on lines and segments, barycentric coordinates, bilinear sampling, probability distributions, random points in polygons and filters all give what their mathematical definition gives, to the precision of their type. Sampling a distribution works for any number from 0 to 1.',
     ['inputs'], 'all vectors, matrices, boxes, convex outlines, lines and distributions of moderate size',
     'Tests check single worked examples of some of these.',
     ['include/common/qvec.hh', 'include/common/mathlib.hh', 'common/mathlib.cc', 'include/common/aabb.hh'],
     [('qvec, qmat, qplane3', 'include/common/qvec.hh'), ('MakeCDF, SampleCDF, ClipPoly, ShrinkPoly, ...', 'common/mathlib.cc'), ('aabb', 'include/common/aabb.hh')],
     'generated operands against long double reference implementations and algebraic identities', NOTE)

prop('C35', 'Byte streams, name orders, checksums and conversions are exact',
     'The memory streams read and write numbers, arrays, enums, records and padding in the chosen byte order at any sequence of positions exactly like a byte array, fail instead of leaving their buffer, and the size stream counts what would be written. Names are equal, found, hashed and ordered ignoring ASCII case; the natural order is a strict weak order that puts numbers before text and compares them by value. Numeric casts (also of bounds and arrays) throw exactly when a value does not fit and round bounds outwards, checksums are CRC-16/CCITT with initial value 0xffff, and flag sets act like integers.',
     ['inputs', 'histories'], 'all histories of stream operations, all names, whole numbers, doubles, flag sets and byte strings',
     'Tests exercise none of these beyond one natural sort.',
     ['include/common/cmdlib.hh', 'common/cmdlib.cc', 'include/common/numeric_cast.hh', 'include/common/bitflags.hh'],
     [('membuf, omemsizebuf', 'common/cmdlib.cc'), ('operator<=, operator>=', 'include/common/cmdlib.hh'), ('natstrlt, case_insensitive_*', 'common/cmdlib.cc'), ('CRC_Block', 'common/cmdlib.cc'), ('numeric_cast, aabb_mins_cast', 'include/common/numeric_cast.hh')],
     'model-based stream histories against a byte array; names, numbers and checksums against reference implementations and order axioms', NOTE)

prop('C16', 'Contents and surface flags mean the same everywhere',
     'Quake II contents keep all 32 bits through the tools\' form (bits it has no room for are left out, sky and detail walls refused); the six Quake values round-trip and all else is refused; names and displays match the bits. What a brush is (solid, detail solid/wall/fence/illusionary, sky, liquid, clip, empty, opaque, sealing), what two brushes in one place or two leafs in a cluster make, whether one can see between two leafs, whether faces appear between them and on which side, what equal contents clip and what is exported follow the game\'s rules and do not depend on the order of the two. Textures and native flags give the contents, lighting, subdivision, hint and phong behaviour the game documents, and face flags of the tools that differ in any field are told apart, ordered, and written exactly when set.',
     ['inputs'], 'all combinations of content bits, both families of games, all special textures and native surface flags',
     'Tests look at a few content values met in test maps.',
     ['common/bspfile.cc', 'include/common/bspfile.hh', 'include/common/bspfile_common.hh'],
     [('gamedef_q1_like_t, gamedef_q2_t', 'common/bspfile.cc'), ('contentflags_t', 'common/bspfile.cc'), ('surfflags_t', 'include/common/bspfile_common.hh')],
     'generated contents, textures and flags against tables and algebraic rules written from the documentation', NOTE)

prop('C17', 'bspinfo reports the map completely and exactly',
     'The .bsp.json report of any map is valid JSON holding every field of every model, leaf, plane, vertex, node (with its plane), texinfo, face (with its corners), clipnode, edge, surfedge, leaf face, leaf brush, brush and side with its exact value, the visibility (PVS and PHS offsets apart), light data and unknown BSPX lumps as two hex digits per byte, the known BSPX lumps field by field, and each texture with the PNG of its pixels in its palette (null if it has none). The geometry .obj has every face with its corners in reverse order, its plane\'s normal and coordinates that find, in the lightmap image of each style any lit face uses, exactly that face\'s luxels; no two faces share luxels, the rest is empty, images end where the faces end, and .lit, LMSHIFT/LMOFFSET and decoupled lightmaps are laid out the same way at any size. bspinfo prints each used texture once with its area, largest first, and fails exactly when a texture animation never ends.',
     ['inputs'], 'all maps of all formats with consistent indices, faces of any lightmap size',
     'No test runs bspinfo or builds an atlas.',
     ['common/bspinfo.cc', 'bspinfo/main.cc'],
     [('serialize_bsp', 'common/bspinfo.cc'), ('build_lightmap_atlas', 'common/bspinfo.cc'), ('PrintBSPTextureUsage, FindInfiniteChains', 'bspinfo/main.cc')],
     'generated maps, reports read back with independent readers (base64, PNG, .obj) and compared field by field and pixel by pixel', NOTE)

prop('C18', 'Decompiling gives back solids, contents, textures and entities',
     'Decompiling a Quake-family map (or one of its clip hulls) writes, for every entity in order with its keys unchanged (less "model", and "origin" of brush models), brushes that cover exactly the points of its model not empty, each once; their textures name their contents, a side carrying faces has their texture in the same alignment, and areas of different texture end up on different brushes. From Quake II\'s brushes each brush of the model comes back once with the same sides, textures, alignment, contents, flags and values (left out only when the .wal says the same), with skip, hint, clip, trigger and liquid textures where the map has none; area portals get their brush by number, func_group is left out. Brush models are moved back to their origin together with their textures and an origin brush, triggers are textured as such, and leaf visualisation shows each non-empty leaf with its contents in its extent.',
     ['inputs'], 'all trees, clip trees, brush lists, faces and entities of the Quake, Hexen II, Half-Life, BSP2 and Quake II formats with features wider than half a unit',
     'Tests decompile a couple of test maps and look at single brushes.',
     ['common/decompile.cc', 'include/common/decompile.hh'],
     [('DecompileEntity', 'common/decompile.cc'), ('SplitDifferentTexturedPartsOfBrush', 'common/decompile.cc'), ('BuildInitialBrush, BuildInitialBrush_Q2', 'common/decompile.cc'), ('VisualizeLeafs', 'common/decompile.cc')],
     'generated BSP trees with known leaf bodies, the written map read back and compared point by point and side by side', NOTE)

prop('C23', 'qbsp keeps the contents of the map',
     'Every point of a compiled map (more than 0.1 from any brush plane) lies in a leaf with the contents of the brushes there: solid over sky over detail solids over liquids in the Quake family, the union of contents in Quake II with solid over all; points nobody can reach are solid (or sky), points somebody can reach are never filled. In each clipping hull a point is solid exactly if a box of that hull\'s size placed there overlaps a solid, detail, fence, sky or clip brush. Brush models hold their brushes moved by their origin brush, with the bounds of these, and the entities come out in order with their keys, "model" and "origin". In Quake II the brushes a leaf lists that hold a point have together the contents of the leaf, and each keeps its sides with their textures, flags and values, and just the bevels a box needs to meet it where it meets the brush.',
     ['inputs', 'configurations'], 'all maps of convex brushes with integer planes, rooms and doorways, all brush kinds, all output formats, the options of tree building',
     'Tests compile some test maps and look at a few points.',
     ['qbsp/qbsp.cc', 'qbsp/brushbsp.cc', 'qbsp/csg.cc', 'qbsp/brush.cc', 'qbsp/map.cc', 'qbsp/outside.cc', 'qbsp/writebsp.cc', 'qbsp/tree.cc'],
     [('ProcessEntity', 'qbsp/qbsp.cc'), ('BrushBSP', 'qbsp/brushbsp.cc'), ('ChopBrushes', 'qbsp/csg.cc'), ('ExpandBrush', 'qbsp/brush.cc'), ('FillOutside, FillDetail', 'qbsp/outside.cc'), ('ExportClipNodes, ExportDrawNodes', 'qbsp/writebsp.cc')],
     'generated maps compiled by the whole of qbsp; random points against a point-in-brush model, Minkowski sums for the hulls and lines of sight for what can be reached', NOTE)

prop('C24', 'qbsp draws each visible surface once and writes a sound tree',
     'Where the visible contents change across a brush\'s side exactly one face lies, with the texture, alignment, flags and value of the last such side in the map file, whole and listed by the leaf in front; nowhere else does one (inside surfaces appear as the game and _mirrorinside want, surfaces within the same contents where _noclipfaces asks). Faces are planar, convex, wound along their plane, on their node\'s plane, no larger than -subdivide allows if they take lightmaps, of at most -maxedges edges, and without t-junctions. Nodes, leafs, faces, edges and clipnodes of all models form proper trees with valid indices, each met once, boxes inside their parents\', planes normalised with the right type.',
     ['inputs', 'configurations'], 'all maps of convex brushes with integer planes, all brush kinds, all output formats, the options of face building',
     'Tests compile some test maps and look at single faces.',
     ['qbsp/faces.cc', 'qbsp/merge.cc', 'qbsp/tjunc.cc', 'qbsp/portals.cc', 'qbsp/brushbsp.cc', 'qbsp/writebsp.cc', 'qbsp/qbsp.cc'],
     [('MakeFaces, SubdivideFace', 'qbsp/faces.cc'), ('MergeAll', 'qbsp/merge.cc'), ('TJunc, LimitFaceEdges', 'qbsp/tjunc.cc'), ('FindPortalSide, MarkVisibleSides', 'qbsp/portals.cc'), ('SelectSplitPlane', 'qbsp/brushbsp.cc'), ('ExportDrawNodes, WriteNodes', 'qbsp/writebsp.cc')],
     'generated maps compiled by the whole of qbsp; points on every brush side and every face against the model of what is in front and behind, invariants over the written structure', NOTE)

prop('C25', 'Portals, clusters and areas describe the open space exactly',
     'The .prt file has one flat convex portal, with the right clusters on its two sides, wherever two clusters meet and their contents can be seen through (liquids unless -notranswater, never solid, sky or visblockers), and none elsewhere; its counts hold, its leafs are those of the map in order, PRT2 lists each leaf once under its cluster, Quake II leafs name theirs, solid leafs have none, and -forceprt1 changes only the header. Detail brushes never divide clusters. In Quake II points that can be reached without crossing an area portal share an area, others do not, each portal is listed with its number by exactly the two areas it joins, and leaking maps have a single area.',
     ['inputs', 'configurations'], 'all sealed or leaking maps of convex brushes with integer planes, all brush kinds, all output formats',
     'Tests compile some test maps and count a few portals.',
     ['qbsp/portals.cc', 'qbsp/prtfile.cc', 'qbsp/tree.cc', 'qbsp/writebsp.cc', 'qbsp/brushbsp.cc'],
     [('MakeTreePortals_r, Portal_VisFlood', 'qbsp/portals.cc'), ('NumberLeafs_r, WritePortals_r', 'qbsp/prtfile.cc'), ('FloodAreas_r, EmitAreaPortals', 'qbsp/portals.cc'), ('PruneNodes_R', 'qbsp/tree.cc')],
     'generated maps compiled by the whole of qbsp; meetings of leafs along random lines against the portals, sight lines against the areas', NOTE)

prop('C26', 'Leaks are found and shown, and compiling is repeatable',
     'A map in which somebody sees a way out past solid and sky is reported as leaking: nothing is filled, the .prt file is left out (unless -keepprt) and a .pts trail leads from an entity outside the shell without crossing solid or sky, with points -leakdist apart; -leaktest fails exactly then. A sealed map, -nofill or entities marked _nofill or _lightgrid_hint give no leak, and what earlier runs left is removed. Compiling the same map again, with any number of threads, writes the same .bsp, .prt, .pts and .texinfo.json byte for byte; -onlyents replaces the entities by those of the changed map with their models and nothing else.',
     ['inputs', 'schedules', 'configurations'], 'all maps with holes in their shell or entities outside it, all output formats, any number of threads',
     'Tests look at two leaking maps, none repeats a compile.',
     ['qbsp/outside.cc', 'qbsp/qbsp.cc', 'qbsp/writebsp.cc', 'qbsp/tree.cc', 'qbsp/tjunc.cc'],
     [('FillOutside, MakeLeakLine', 'qbsp/outside.cc'), ('WriteLeakTrail', 'qbsp/outside.cc'), ('ConvertNodeToLeaf', 'qbsp/tree.cc'), ('UpdateEntLump', 'qbsp/qbsp.cc')],
     'generated leaking and sealed maps; trails against the brushes, repeated compiles compared byte by byte', NOTE)

prop('C28', 'Luxels get the light that reaches them',
     'A luxel whose sample lies well inside its face holds, for each style, the lights and suns of that style that shine on its front and are not blocked: each gives its colour times the falloff of its delay, wait and falloff at that distance, times the spotlight cone with its soft edge, times 1-anglescale+anglescale*cos; suns count where the first thing in their direction is sky. Walls, detail, fences and brush models with _shadow, _shadowself or _shadowworldonly block, liquids and other models do not; minlight and local minlight raise, or with _addmin add, negative lights take away, then maxlight, range, gamma and the cap at 255 apply. With -extra the luxel is the mean of its samples, every style bright enough to show is kept, and moved brush models are lit where they stand.',
     ['inputs', 'configurations'], 'all maps of convex brushes, lights of all delays, spotlights, suns, minlight and worldspawn light keys, -extra, -extra4, -gate, Quake, Half-Life and Quake II formats',
     'Tests light some maps and look at single luxels.',
     ['light/ltface.cc', 'light/entities.cc', 'light/trace_embree.cc', 'light/write.cc', 'light/light.cc', 'light/trace.cc'],
     [('LightFace_Entity, LightFace_Sky, LightFace_Min, LightFace_LocalMin', 'light/ltface.cc'), ('GetLightValue, GetLightContrib', 'light/ltface.cc'), ('SetupSpotlights, SetupSuns, CheckEntityFields', 'light/entities.cc'), ('FinishLightmapSurface, WriteSingleLightmap', 'light/write.cc')],
     'generated lit maps run through the whole of light; sampled luxels against a model of the lighting that leaves out what depends on hairs', NOTE)

prop('C27', 'Lightmaps are stored where the map says they are',
     'light changes nothing in a .bsp but lightmaps, the styles and offsets of faces, its own BSPX lumps and the styles of switched lights (32 on, in order of their names). Each lit face has its styles brightest first without gaps or repeats, at most -facestyles of them, and a range of luxels of the size of its extents, at its LMSHIFT or DECOUPLED_LM scale too, that lies in the lump and overlaps no other; unlit faces have none, and fewer styles or more threads change no luxel. .lit, .lux, RGBLIGHTING and LIGHTINGDIR appear as asked for with the right size and the same content, the plain lightmap is the brightest of each colour, and the scaled light resampled where scales differ; lighting again gives the same bytes, -litonly leaves the map alone, -onlyents the light, and a .texinfo.json that names texinfos the map lacks counts for nothing.',
     ['inputs', 'configurations', 'schedules'], 'all maps and lights, the options that choose where and how light is stored, every game',
     'Tests light some maps and look at single luxels.',
     ['light/write.cc', 'light/light.cc', 'light/ltface.cc', 'light/entities.cc', 'common/bspxfile.cc', 'common/bsputils.cc'],
     [('SaveLightmapSurfaces, CalculateLightmapStyles', 'light/write.cc'), ('WriteSingleLightmap, WriteSingleLightmap_FromDecoupled', 'light/write.cc'), ('WriteLitFile, WriteLuxFile', 'light/write.cc'), ('CreateLightmapSurfaces, LightWorld', 'light/light.cc'), ('faceextents_t', 'common/bsputils.cc')],
     'generated lit maps run through the whole of light with random storage options; the stored ranges, styles and colours against the extents of the faces and a model of the lighting, runs against each other', NOTE)

prop('C29', 'Phong shading smooths the faces that ask for it',
     'With -wrnormals, FACENORMALS names for every vertex of every face a unit normal: the mean, weighted by area and by the angle at the vertex, of the face and of those faces sharing the vertex that smooth with it, which are those where both ask for phong by _phong, _phong_angle or a group, neither refuses it (no_phong in .texinfo.json), group and special or translucent kind agree and the angle between them is within both limits, _phong_angle_concave for concave joints. Tangents and bitangents are the texture axes of the faces mixed the same way, faces that smooth with none keep their own. Light on a luxel uses these normals interpolated over its face (as -phongdebug shows) where phong is on, the plane\'s elsewhere.',
     ['inputs', 'configurations'], 'all maps of convex brushes, phong keys on worldspawn, groups, details and models, Quake II surface values',
     'Tests look at one cone and one bevelled cube.',
     ['light/phong.cc', 'light/light.cc', 'light/ltface.cc', 'qbsp/map.cc', 'common/mathlib.cc'],
     [('CalculateVertexNormals', 'light/phong.cc'), ('WriteNormals, LoadExtendedTexinfoFlags', 'light/light.cc'), ('CalcPointNormal, LightFace_PhongDebug', 'light/ltface.cc'), ('InterpolateNormal', 'common/mathlib.cc')],
     'generated maps of prisms and broken shapes run through qbsp and light; stored normals and debug luxels against a model computed from the BSP and the keys', NOTE)

prop('C30', 'The light grid holds the light in open space',
     'With -lightgrid, LIGHTGRID_OCTREE spans the bounds of the world\'s faces, or of the _lightgrid_hint points if those span a box, in steps of -lightgrid_dist; looking up any grid point in the tree leads to exactly one stored point or to the solid, every stored point is reached once and the counts and sizes agree with the content. A point is in the solid if it and the six points 2 units around it lie in solid or sky leafs; any other has, for each style at most once (and no more styles than the lump says), the light there of all lights and suns of that style that reach it past walls and shadow casting models, on the side of a cube that gets most of each, clamped and scaled as luxels are. The threads do not matter, and the lightmaps are the same (but for sky) without it.',
     ['inputs', 'configurations', 'schedules'], 'all maps of convex brushes, lights, spotlights, suns, worldspawn light keys, hints, step sizes',
     'Tests look at the size of one grid and at a few points.',
     ['light/lightgrid.cc', 'light/ltface.cc', 'light/entities.cc', 'light/trace_embree.cc'],
     [('LightGrid, MakeOctreeLump, FixPointAndCalcLightgrid', 'light/lightgrid.cc'), ('CalcLightgridAtPoint, LightPoint_Entity, LightPoint_Sky', 'light/ltface.cc'), ('lightgrid_samples_t', 'light/ltface.cc')],
     'generated lit maps run through the whole of light; the lump read back the way an engine does, every point looked up, sampled points against a model of the lighting', NOTE)

prop('C31', 'Surfaces give light and throw it back',
     'Each face whose texture has the Quake II light flag with a value, or a light entity with _surface, lights what its front can see: as one source above its middle of light times area over the square of the distance (at least 16), times surflightscale and the slanting of both faces (by half, not at all with _surface_spotlight 0), or, for Quake-style _surface lights, as lights of that entity above its pieces cut at 128 units; it shines in the colour given to the surface, template or style and looks at least as bright as surflight_minlight_scale says. With -bounce each solid face that casts shadows throws back the mean light of each style (only style 0 unless bouncestyled) it got from lights and surfaces, mixed with its colour by bouncecolorscale, times bouncescale/2 and its area over the square of the distance (at least 128). Vis data (-visapprox) changes none of this.',
     ['inputs', 'configurations'], 'all maps of convex brushes, surface light templates and flags, light entities, surflight and bounce keys, with and without vis data, brush models too',
     'Tests light a few maps with surface lights and look at single luxels.',
     ['light/surflight.cc', 'light/bounce.cc', 'light/ltface.cc', 'light/entities.cc', 'light/light.cc'],
     [('MakeSurfaceLight, IsSurfaceLitFace', 'light/surflight.cc'), ('MakeBounceLightsThread', 'light/bounce.cc'), ('LightFace_SurfaceLight, GetSurfaceLighting, SurfaceLight_VisCull', 'light/ltface.cc'), ('MakeSurfaceLights, SubdividePolygon', 'light/entities.cc'), ('CacheTextures', 'light/light.cc')],
     'generated lit maps run through qbsp, vis and light; luxels against lower and upper bounds computed from the BSP and the entities', NOTE)

prop('C32', 'bsputil changes what it is told to and nothing else',
     'BSPX lumps come out as they are, go in as the file is, replace the one of that name or vanish; --extract-entities, --replace-entities and --settexinfo read or set just that, --modelinfo, --findleaf, --findfaces and --check leave the map alone, and everything not asked about stays byte for byte. --extract-textures writes a WAD2 of every embedded texture as it is, and --replace-textures swaps in those of the same name and size. --scale x y z gives the same map scaled, mirrored or not: vertices, closed faces and their fronts, contents at scaled points in every tree, bounds, brushes, texture and lightmap coordinates, entity origins and the light grid; --findleaf and --findfaces name what is there, and --check warns about broken references and points off their planes, not about sound maps.',
     ['inputs', 'configurations', 'histories'], 'all maps of every format qbsp makes or that follows the layout, textures of any size and padding, all factors that are not 0',
     'Tests do not run it but for decompiling.',
     ['bsputil/bsputil.cc', 'common/bspfile_common.cc', 'common/bspxfile.cc', 'common/imglib.cc'],
     [('bsputil_main', 'bsputil/bsputil.cc'), ('ExportWad, ReplaceTexturesFromWad', 'bsputil/bsputil.cc'), ('CheckBSPFile, CheckBSPFacesPlanar', 'bsputil/bsputil.cc'), ('planelist_t', 'bsputil/bsputil.cc'), ('FindLeaf, FindFaces', 'bsputil/bsputil.cc')],
     'histories of options run on random and compiled maps; the files against a model of the lumps and textures, the scaled map against the original through its trees, faces and brushes, warnings against planted damage', NOTE)

prop('C33', 'maputil shows scripts the map and saves what they make of it',
     'dump and the tables handed to scripts show every entity with its keys in order, every brush and face with its texture, plane points, texture axes, shift, rotation, scale and content values as the map has them, in all three texture formats; tables a script commits become the map, faces given by plane points and any texture format, and saving writes them so that they read back as committed. --query prints the entities its expression is true for, --strip_extended_info drops the Quake II values of all faces, --convert changes the format and not where textures lie. create_winding gives the polygon of a face of a brush, facing out, with its area; load_json gives scripts the values of the file.',
     ['inputs', 'histories'], 'all maps without patches or primitive brushes, any sequence of these operations',
     'Tests do not run it.',
     ['maputil/maputil.cc', 'common/mapfile.cc'],
     [('maputil_make_brush_side, maputil_make_brush, maputil_copy_dict', 'maputil/maputil.cc'), ('l_commit_map, maputil_copy_side, maputil_update_side', 'maputil/maputil.cc'), ('l_create_winding, json_to_lua', 'maputil/maputil.cc'), ('maputil_main', 'maputil/maputil.cc'), ('map_file_t::write, brush_side_t::convert_to', 'common/mapfile.cc')],
     'random sequences of operations with generated Lua scripts; dumps and saved files against a model of the map', NOTE)

prop('C36', 'What brush entities say reaches their faces',
     'Each face carries what the entity its brush came from asks for: the values .texinfo.json tells light for its texinfo (dirt, bounce, shadow, minlight with its excluded textures, phong and surface light of the world where the entity has none, colours and limits clamped to their ranges, alpha, groups, channels), none with -noextendedsurfflags nor from earlier runs, and whether liquids take light (_litwater). Where an _lmscale or -lmscale other than 1 counts, LMSHIFT has for each face the power of two of its entity, else there is none, and no face spans more than 255 of its luxels. With -wrbrushes, BRUSHLIST has, per model, every brush but illusionary ones with its box, contents and the planes that are not axial.',
     ['inputs', 'configurations'], 'all maps of convex brushes, these keys on worldspawn, groups, details and brush models, textures shared by entities that differ in one key',
     'Tests look at single maps with one such key.',
     ['qbsp/map.cc', 'qbsp/writebsp.cc', 'qbsp/faces.cc', 'qbsp/qbsp.cc', 'common/bspfile_common.cc', 'common/bspxfile.cc'],
     [('SurfFlagsForEntity', 'qbsp/map.cc'), ('WriteExtendedTexinfoFlags', 'qbsp/writebsp.cc'), ('EmitFaceFragment, SubdivideFace', 'qbsp/faces.cc'), ('BSPX_CreateBrushList', 'qbsp/qbsp.cc'), ('surfflags_t::operator<', 'common/bspfile_common.cc'), ('bspxbrushes', 'common/bspxfile.cc')],
     'generated maps with random keys compiled; every face traced back to its brush and compared with the keys of its entity', NOTE)

prop('C37', 'Prefabs and aliased entities become what they ask for',
     'A misc_external_map brings every brush of the .map it names (and nothing else of it) to exactly where its scale, its angles (pitch down, yaw left, roll) and its origin put it, with the contents, and with the texture of each side moved, turned and stretched along; its entity takes the new classname, loses its origin, keeps its other keys, and is a model or part of the world as that class is. An entity whose class an alias file names gets the class and those keys of the alias that it has not itself, and is treated as that class throughout.',
     ['inputs', 'configurations'], 'all prefabs of convex brushes, all angles and positive scales, several places in one map; all alias files and entities',
     'No test places a prefab with other angles or scales than a few fixed ones.',
     ['qbsp/map.cc', 'qbsp/qbsp.cc'],
     [('ProcessExternalMapEntity, ScaleMapFace, RotateMapFace, TranslateMapFace, LoadExternalMap', 'qbsp/map.cc'), ('ParseEntity', 'qbsp/map.cc'), ('qbsp_settings::load_entity_def', 'qbsp/qbsp.cc')],
     'generated prefabs and places compiled; points and face textures compared through a transformation of our own, entities with a model of aliases', NOTE)
