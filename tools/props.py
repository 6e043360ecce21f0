"""The table of properties: see mk.py"""
NODES = 'delayed_image/delayed_nodes.py'
LEAFS = 'delayed_image/delayed_leafs.py'
BASE = 'delayed_image/delayed_base.py'
LAZY = 'delayed_image/lazy_loaders.py'
CS = 'delayed_image/channel_spec.py'
SC = 'delayed_image/sensorchan_spec.py'
HELP = 'delayed_image/helpers.py'
NETTXT = 'delayed_image/util/util_network_text.py'

OPT = [('rewrite rules of the optimizer (crop under warp, fuse, push under concat, overview absorption)', NODES + ': optimize and _opt_* of DelayedCrop, DelayedWarp, DelayedOverview, DelayedDequantize, DelayedChannelConcat')]
TESTS_SAMPLE = 'The tests run a few fixed demo trees; '

PROPS = [
    dict(id='P01', title='Finalize renders every operation tree at the right place, optimized or not',
         statement='Rendering a tree of crops, warps, overviews, channel selections and concatenations puts every source '
         'position at the place the composed operations say and fill (nan or the border value) elsewhere. This holds the '
         'same with and without optimization, to sub pixel accuracy.',
         over=['programs', 'inputs', 'configurations'], qtext='all trees of operations over in-memory, on-disk and '
         'constant images, all transforms, sizes and resampling options',
         why=TESTS_SAMPLE + 'a wrong offset that needs a particular nesting (crop of overview of warp of concat) or a '
         'particular fraction is not among them, and most tests only print the tree.',
         files=[NODES, LEAFS, HELP, LAZY], mech=OPT + [('transform composition and window computation', HELP + ': _swap_warp_after_crop, _swap_crop_after_warp')],
         observe=['finalize()', 'optimize()'],
         technique='the pixels of ramp images rendered from random trees are decoded into absolute source positions and judged by an independent model',
         note='Random trees up to 9 operations deep per part, 3 parts; judged per pixel away from a band around borders; OpenCV resampling trusted to 1/8 px per stage.'),
    dict(id='P02', title='Optimizing preserves the size and channels of the image',
         statement='Optimizing a tree never changes the width, height, number of channels or channel names it reports, and '
         'the rendered data agrees with the report.',
         over=['programs', 'inputs'], qtext='all trees, including degenerate sizes and large shrink factors',
         why=TESTS_SAMPLE + 'off by one sizes appear only for particular roundings of fractional scales combined with crops.',
         files=[NODES], mech=OPT, observe=['dsize', 'shape', 'channels', 'finalize()'],
         technique='metadata monitors on random trees before / after optimize and on the rendered arrays against a reference model',
         note='Random trees; sizes down to 1 pixel and up to 900.'),
    dict(id='P03', title='Optimizing, rendering and deriving never modify the tree and are repeatable',
         statement='No operation on a tree (optimize, finalize, derive, undo warps, export) changes that tree, its leafs or '
         'its pixels. Repeating an operation gives equal results, and optimizing twice gives what optimizing once gave.',
         over=['histories', 'programs'], qtext='all histories of API calls over shared trees',
         why='Tests build each tree fresh and use it once; sharing and aliasing between trees that were derived from each other need histories.',
         files=[NODES, BASE, LEAFS], mech=OPT + [('shallow copies that share metadata and subdata', BASE + ': DelayedOperation'), ('undo of warps', NODES + ': undo_warp, undo_warps')],
         observe=['every public method'],
         technique='full snapshot (identity, metadata, transforms, pixel hash) of every node compared after each step of a random history',
         note='Random histories of 3 to 7 calls; snapshots cover all public metadata and the leaf arrays.'),
    dict(id='P04', title='Resampling options given to a warp are the ones used after optimization',
         statement='Interpolation, antialiasing, border value and backend requested for a warp determine the optimized '
         'rendering too: nearest never invents values, linear stays in the range of the source, requested smoothing and '
         'fill are applied, whatever rewriting took place.',
         over=['programs', 'configurations'], qtext='all option sets over all trees of warps, crops, overviews and concats',
         why=TESTS_SAMPLE + 'an option lost in one rewrite rule leaves the shape and rough look unchanged.',
         files=[NODES], mech=OPT + [('options carried through rewrites', NODES + ': DelayedWarp.meta (antialias, interpolation, border_value, backend, noop_eps)')],
         observe=['finalize()', 'meta of the optimized warps'],
         technique='value-set, range, smoothing and fill monitors over renders of noise images, plus option audit of each optimized warp',
         note='Statistical criterion for antialiasing, exact criteria for the others.'),
    dict(id='P05', title='Metadata known before rendering matches the rendered data for every node',
         statement='For every node of a tree, and of its optimized form, the reported shape, size and channel count are '
         'those of the array the node yields.',
         over=['programs', 'inputs'], qtext='every node of every tree',
         why='Tests compare the final shape only, for a few trees.',
         files=[NODES, LEAFS], mech=OPT, observe=['shape', 'dsize', 'num_channels', 'finalize()'],
         technique='every node of random trees is rendered in isolation and compared with its metadata',
         note='Random trees; each node of the raw and optimized graph.'),
    dict(id='P06', title='Crops of any image select exactly the pixels numpy slicing selects',
         statement='Sequences of crops (negative, open, out of bounds, padded or empty windows), band selections and '
         'concatenations deliver bit for bit what numpy indexing of the full image delivers, for in-memory and lazily '
         'loaded images, optimized or not.',
         over=['inputs', 'programs'], qtext='all windows, pads, channel indexers, dtypes and file layouts',
         why='The tests crop a few in-bounds windows; sign, clipping and fusing of nested windows are combinatorial.',
         files=[NODES, LAZY], mech=[('fusing and clipping of windows', NODES + ': DelayedCrop._opt_fuse_crops, ImageOpsMixin.crop'), ('lazy window reads', LAZY + ': LazyGDalFrameFile.__getitem__, _rectify_slice_dim')],
         observe=['crop()', '__getitem__', 'finalize()'],
         technique='differential monitor: random crop programs versus numpy slicing, bitwise',
         note='Random programs; bitwise; padding limited to one per path.'),
    dict(id='P07', title='A warp resamples like an independent reference, also in every crop window',
         statement='The pixels of a warp equal an independent implementation of affine resampling for the requested '
         'interpolation and fill. A crop of a warp is the same window of the warp, up to the edge of the window, '
         'although only the needed part of the source is read.',
         over=['inputs', 'configurations'], qtext='all affine transforms, dtypes, interpolations, border values and windows',
         why='The tests compare single renders against stored sizes or themselves; edge pixels of windows depend on the exact footprint margin.',
         files=[NODES, HELP], mech=[('footprint margin of a crop pushed under a warp', NODES + ': DelayedCrop._opt_warp_after_crop; ' + HELP + ': _swap_warp_after_crop'), ('warp execution', NODES + ': DelayedWarp._finalize')],
         observe=['finalize()', 'crop().optimize().finalize()'],
         technique='differential monitor against a numpy bilinear / bicubic / nearest reference and between windows and full renders',
         note='Reference positions trusted to 1/16 source pixel.'),
    dict(id='P08', title='Every requested channel yields the right band, missing channels yield nan',
         statement='Selecting channels by name, code, index or slice yields the bands with that meaning, in the requested '
         'order, from whichever concatenated part holds them, and nan bands for names nobody has. Geometry and '
         'optimization never move a name to another band.',
         over=['programs', 'inputs'], qtext='all channel layouts, selections and nestings of concat / select / geometry',
         why='The tests use rgb-like layouts with a couple of selections.',
         files=[NODES, CS], mech=[('selection over parts', NODES + ': DelayedChannelConcat.take_channels, DelayedImage.take_channels, _InnerAccumSegment'), ('code expansion', CS + ': FusedChannelSpec.normalize')],
         observe=['take_channels()', '__getitem__', 'crop(chan_idxs)', 'finalize()', 'channels'],
         technique='bands hold distinct constants, so each rendered band is identified by value and compared with a list model',
         note='Random layouts; missing channel policies covered.'),
    dict(id='P10', title='Dequantized images hold the encoded numbers and never expose nodata',
         statement='Dequantizing gives each pixel the number it encodes and nan for nodata, in whichever order it is '
         'combined with crops, selections, overviews and warps. Quantizing and dequantizing round trips within one '
         'quantization step for every integer type, range and sentinel.',
         over=['inputs', 'programs'], qtext='all dtypes, ranges, sentinels and operation orders',
         why='The tests use one quantization and few orders; the optimizer moves the dequantization.',
         files=[HELP, NODES], mech=[('quantization formulas', HELP + ': dequantize, quantize_float01, quantize_image'), ('reordering of dequantize', NODES + ': _opt_dequant_*, DelayedDequantize.optimize')],
         observe=['helpers.dequantize', 'helpers.quantize_*', 'dequantize().finalize()'],
         technique='exact formula oracle over helpers and random trees with sentinel pixels planted',
         note='Linear warps over sentinels are judged for the optimized graph or with the dequantize first.'),
    dict(id='P11', title='Overviews deliver the stored pyramid and warps use just the lossless level',
         statement='get_overview(k) of a file based image is the stored level k, also under crops, selections, dequantize and '
         'concatenation and when overviews are nested. Optimized reducing warps read the coarsest level that is at least as '
         'fine as what the warp needs in its less reduced axis, never a coarser one that loses detail, and always at the '
         'right positions; levels beyond the stored ones are simulated.',
         over=['inputs', 'programs', 'configurations'], qtext='all pyramids (levels, drivers, internal or external), all affine warps, crops and selections over them',
         why='The tests use images whose levels look alike, so that the wrong level or a shift of half a pixel is not seen.',
         files=[NODES, LEAFS, LAZY], mech=[('splitting a warp into an overview and a residual', NODES + ': DelayedWarp._opt_split_warp_overview, _opt_absorb_overview'), ('reading levels', LAZY + ': LazyGDalFrameFile.__getitem__, get_overview')],
         observe=['get_overview()', 'optimize().finalize()'],
         technique='each level of a hand written pyramid carries a tag and a ramp of positions, so that every rendered pixel tells the level and place it came from; compared with the level rule',
         note='Pyramids of up to 4 levels; documented rule: an explicit overview under a magnification below 2 keeps its level.'),
    dict(id='P12', title='Undoing warps gives the images in their native resolution, and says how',
         statement='Undoing the warps of an image (or of each part of a concatenation) removes the components asked for and '
         'keeps the retained ones; the returned warp maps the image onto the undone image, pixel for pixel. A full '
         'undo yields the very samples stored in the leaf; squashed nan parts have one pixel and a matching warp. Asking both to remove and to retain is refused.',
         over=['programs', 'inputs', 'configurations'], qtext='all chains of operations, all sets of components to remove or retain, all concatenations of such parts',
         why='The tests undo two or three fixed parts and compare sizes.',
         files=[NODES], mech=[('component wise inversion', NODES + ': DelayedImage.undo_warp, DelayedChannelConcat.undo_warps, _rectify_retain')],
         observe=['undo_warp()', 'undo_warps()', 'finalize() of the results'],
         technique='the undone images of ramp images are decoded and judged by the position model extended with the returned warp',
         note='Chains up to 6 operations, 3 parts; exact samples are required for full undos of linear warps.'),
    dict(id='P13', title='The transform reported between two images maps the data of one onto the other',
         statement='The transform an image reports from its leaf, or from another image derived from common data, is where '
         'the pixels really are, also after optimization, and reporting it changes nothing.',
         over=['programs', 'histories'], qtext='all pairs of images derived from shared data by any operations, each optimized or not',
         why='The tests check one pair; the offset of each crop, overview and rewritten warp enters the transform.',
         files=[NODES, BASE], mech=[('composition of node transforms', NODES + ': get_transform_from_leaf, get_transform_from, _transform_from_subdata'), ('path to a shared leaf', BASE + ': _leaf_paths')],
         observe=['get_transform_from()', 'get_transform_from_leaf()', 'finalize()'],
         technique='reported transforms are compared with a composed reference and with positions decoded from the renders of both images',
         note='Random derivations up to 4 operations on bases up to depth 2.'),
    dict(id='P14', title='Indexing a lazy frame file gives what indexing the whole array gives',
         statement='Indexing the GDAL (either read path, any overview level), rasterio or spectral reader with slices, integers, '
         'negative numbers, band lists or an ellipsis yields the dtype, shape and values of the same index on the array in '
         'the file, in any order of reads; what numpy would refuse gives no data.',
         over=['inputs', 'histories', 'configurations'], qtext='all files (formats, dtypes, layouts, levels), all indices and sequences of reads on shared handles',
         why='The tests read a demo image of one layout with plain windows; the fast path is off by default and never tested on others.',
         files=[LAZY], mech=[('index to window and band list', LAZY + ': _rectify_slice_dim, LazyGDalFrameFile.__getitem__'), ('read paths', LAZY + ': _dataset_read_as_array, _compat_gdal_read'), ('levels over a shared handle', LAZY + ': get_absolute_overview, _read_ds')],
         observe=['LazyGDalFrameFile', 'LazyRasterIOFrameFile', 'LazySpectralFrameFile'],
         technique='model-based monitor: every read compared with numpy on the array the file was written from',
         note='8 formats, 11 dtypes, up to 300 px and 5 bands, up to 8 reads per history; also the ENVI header parser.'),
    dict(id='P15', title='Optimized trees read just the bands and window they need, when rendered',
         statement='Building, querying, preparing and optimizing a tree reads no pixels. Rendering the optimized tree reads only '
         'the bands of the requested channels, at most once per channel, and only the part of each file the output depends on '
         '(plus the support of the filters); files that do not contribute are not read.',
         over=['programs', 'configurations'], qtext='all trees over files, both read paths (nearest warps and simulated levels excepted)',
         why='The tests look at printed graphs; pushing a crop or selection a step too late renders the same pixels from a thousand times the data.',
         files=[NODES, LAZY, BASE], mech=OPT + [('lazy references', LAZY + ': LazyGDalFrameFile.__getitem__')],
         observe=['gdal Band and Dataset reads', 'optimize()', 'finalize()'],
         technique='every GDAL read is recorded by wrappers and compared with the footprint derived by the reference model',
         note='Files up to 420 px, windows up to 24 px; margins grow with the number of warps.'),
    dict(id='P16', title='Nodata pixels are exactly the ones that come out nan or masked, everywhere',
         statement='With a float nodata method exactly the pixels that hold the nodata value of their band are nan, with the '
         'masked method exactly they are masked, without one the raw values come out. This holds for each level, read path and '
         'band selection and is kept by crops, padding, warps, overviews and concatenation, optimized or not: interpolation never '
        'blends nodata into valid pixels.',
         over=['inputs', 'programs', 'configurations'], qtext='all files and nodata values (per band, nan, out of range), all methods and trees of such operations',
         why='The tests read one demo file with one nodata value.',
         files=[LAZY, LEAFS, NODES], mech=[('masks while reading', LAZY + ': _gdal_read_kwimage_compatible, _dataset_read_as_array'), ('masks through operations', NODES + ': DelayedWarp._finalize, DelayedOverview._finalize, DelayedChannelConcat._finalize'), ('explicit nodata images', LEAFS + ': DelayedNodata')],
         observe=['DelayedLoad(nodata_method=)', 'LazyGDalFrameFile', 'finalize()'],
         technique='written arrays and a numpy model of values and masks judge reads and rendered trees exactly; nan and masked twins of a program are compared',
         note='Cubic and lanczos around nan and warps over windows that cut data off are excluded (see DESIGN.md).'),
    dict(id='P17', title='The handle cache keeps the most recently used entries, readers stay right',
         statement='The cache of open files never exceeds its capacity, evicts the least recently used entry first and returns '
         'the stored values, after any history. Readers that share it always read their own file.',
         over=['histories'], qtext='all histories of dictionary operations and capacities, all sequences of reads over more files than handles',
         why='No test uses the cache beyond its constructor, and it is off by default.',
         files=[LAZY], mech=[('recency order', LAZY + ': CacheDict.__setitem__, __getitem__'), ('use', LAZY + ': GLOBAL_GDAL_CACHE in LazyGDalFrameFile._reload_cache')],
         observe=['CacheDict', 'LazyGDalFrameFile'],
         technique='model-based monitor: the order and contents after each operation compared with a model',
         note='Histories up to 40 operations, capacities up to 10.'),
    dict(id='P18', title='Channel specs obey ordered-set algebra under every spelling',
         statement='Normalizing, condensing, union, difference, intersection, concatenation, indexing and encoding of '
         'channel specs act as the same operations on the ordered list of channel names a spec denotes. Different '
         'spellings of one list behave the same and operands are never changed.',
         over=['inputs', 'histories'], qtext='all specs of the grammar and all sequences of operations',
         why='The doctests show one example per method; caches (memoized normal forms) and spellings interact over histories.',
         files=[CS], mech=[('parsing and expansion', CS + ': FusedChannelSpec.normalize, concise, ChannelSpec'), ('memoization', CS + ': cached __hash__/intern')],
         observe=['FusedChannelSpec', 'ChannelSpec'],
         technique='model-based monitor: every result of a random operation history compared with a list model',
         note='Random specs; duplicates out of scope of the algebra.'),
    dict(id='P19', title='Sensor-channel specs denote the same sensor and channel pairs however written',
         statement='Normalizing, condensing, splitting, filtering by sensor and concatenating sensor-channel specs '
         'preserve the denoted (sensor, channels) streams however the spec is factored, and malformed specs are rejected.',
         over=['inputs', 'histories'], qtext='all specs of the grammar and all histories of rewritings',
         why='The doctests show a handful of spellings.',
         files=[SC], mech=[('grammar and transformer', SC + ': SENSOR_CHAN_GRAMMAR, NormalizeTransformer'), ('condensing', SC + ': concise')],
         observe=['SensorChanSpec'],
         technique='model-based monitor: the denoted multiset is compared after each rewriting of random factored specs',
         note='Random specs of the documented grammar and fixed malformed mutants.'),
    dict(id='P20', title='Threads and forks that share trees get the results of sequential use',
         statement='Rendering, optimizing, deriving from and querying one in-memory tree from many threads at once, one tree over files '
         'from threads whose GDAL calls do not overlap (however they interleave otherwise, also while the files are opened), trees '
         'of their own over the same files from several threads, or one unopened tree from forked processes, gives each user '
         'exactly the result of sequential use and leaves shared trees unchanged.',
         over=['schedules', 'programs'], qtext='all interleavings of users of a tree, all trees and uses',
         why='No test uses threads or forks; sharing of memos, specs and nodes between trees is pervasive.',
         files=[NODES, BASE, LEAFS, CS], mech=[('per call optimization memo', BASE + ': OptimizeContext'), ('copies instead of in place rewrites', NODES + ': optimize methods'), ('memoized specs', CS + ': FusedChannelSpec')],
         observe=['finalize()', 'optimize()', 'derived images'],
         technique='a controlled scheduler preempts threads at random lines of the library (sys.monitoring); stress with tiny switch intervals and yields; results compared with sequential ones; the event orders are recorded',
         note='2 to 6 threads, 3 forks; GDAL handles are never used by two threads at the same time.'),
    dict(id='P21', title='A failing read or operation raises, invents no pixels and leaves trees usable',
         statement='When a file is missing, damaged or stops being readable, or a resampling call fails, rendering raises instead of '
         'returning made up data (or recovers and returns the right data). The tree is unchanged and renders correctly once '
         'the cause is gone.',
         over=['crash_points', 'inputs', 'programs'], qtext='every call of a render as the failing one, transient or lasting, with GDAL exceptions on or off; all damaged files',
         why='The tests have no failing reads; the readers allocate uninitialized buffers and swallow exceptions to fall back to other paths.',
         files=[LAZY, LEAFS, BASE, NODES], mech=[('fallback chain of read paths', LAZY + ': LazyGDalFrameFile.__getitem__, _compat_gdal_read'), ('errors while opening', LAZY + ': _reload_cache'), ('evaluation', BASE + ': DelayedOperation.finalize')],
         observe=['finalize()', 'the tree after a failure'],
         technique='fault injection at each read and resampling call of a render and damaged files, the outcome compared with the intact render or GDAL itself',
         note='Up to 6 failing calls of each render, three kinds of failures.'),
    dict(id='P22', title='Graph, nesting and text views show exactly the operations of a tree',
         statement='The graph, nesting, leaf list and text drawing of a tree show every operation of it exactly once, with its type, '
         'size, channels and transform, under the right parent and in order, and change nothing. The text drawing of any graph shows '
         'every node once and every edge once (marking what it cuts off), and parses back to that graph.',
         over=['inputs', 'programs'], qtext='all trees, also with shared nodes; all graphs, directed or not, cyclic, in several components, in every drawing style',
         why='The tests draw a few trees and never read the drawing back; drawings of cyclic graphs and shared nodes depend on the order of traversal.',
         files=[BASE, NETTXT], mech=[('graph export', BASE + ': as_graph, _traversed_graph'), ('nesting', BASE + ': nesting'), ('drawing and parsing', NETTXT + ': generate_network_text, parse_network_text')],
         observe=['as_graph()', 'nesting()', 'leafs()', 'write_network_text()'],
         technique='random graphs and trees, the drawing decoded by an independent reader and compared with the graph or a walk of the tree',
         note='Graphs up to 20 nodes with one word labels.'),
    dict(id='P23', title='Exports and render options act on the whole tree and keep data and labels',
         statement='The xarray export and the evaluated image of a tree hold the pixels, size and channel names of its rendering, also for '
         'masked data, and work goes on from them with equal results. Options passed to finalize act as if every operation had been built '
         'with them, and leafs whose metadata the user supplies behave as prepared ones.',
         over=['inputs', 'programs', 'configurations'], qtext='all trees, all export calls, all combinations of render options and of known metadata',
         why='The tests export one image without a mask and never compare labels, and pass options to finalize without comparing the data.',
         files=[BASE, NODES, LEAFS], mech=[('xarray export', NODES + ': DelayedAsXarray'), ('evaluation', NODES + ': evaluate'), ('options at render', BASE + ': finalize, _set_nested_params'), ('metadata', LEAFS + ': DelayedLoad._load_metadata')],
         observe=['as_xarray().finalize()', 'evaluate()', 'finalize(**options)', 'prepare()'],
         technique='random trees, the exports and renders compared with the plain rendering or with the tree built with the options',
         note='Options on trees without padded crops, which hold an internal warp.'),
    dict(id='P24', title='Tracing and debugging switches observe without changing any result',
         statement='Switching on the optimizer trace, the array event log or the warp messages, for the whole process or between operations, changes no result: '
         'renders are bitwise equal, optimized and undone trees are equal, trees in use are not altered, the same calls fail with the same kind of error, '
         'and every event written is one well formed record. With the switches off nothing is written.',
         over=['inputs', 'programs', 'configurations'], qtext='all trees, all subsets of the switches, set in the environment or while running',
         why='The tests run with one setting of the switches, so the branches behind them are not executed at all.',
         files=[NODES, LEAFS, 'delayed_image/debug_utils.py', 'delayed_image/helpers.py', 'delayed_image/lazy_loaders.py'],
         mech=[('events', 'delayed_image/debug_utils.py: emit, summarize_array'), ('dequantization', 'delayed_image/helpers.py: dequantize'), ('optimizer trace', NODES + ': _opt_logs'), ('warp messages', NODES + ': DelayedWarp._finalize')],
         observe=['optimize()', 'finalize()', 'crop(), warp(), take_channels()', 'undo_warp()', 'as_graph()', 'the event log'],
         technique='random trees run with and without the switches in one process and in fresh interpreters, every observable result compared, event records parsed',
         note='The trace itself may differ.'),
    dict(id='P25', title='Trees, readers and renders give back memory and handles and leave files alone',
         statement='When the last reference to a tree, a reader or a result is dropped, its nodes, arrays and file handles are released, also after failures and whatever was '
         'called on it. Repeated renders of one tree keep neither memory nor further handles, and a tree does not hold on to results. Handles that stay open '
         'are at most those of the handle cache. Files are opened for reading only, and neither they nor their folders change.',
         over=['inputs', 'programs', 'histories'], qtext='all trees and readers, all sequences of uses and failures, all cache lengths',
         why='Tests end before anything accumulates and look at results, not at what stays alive or open.',
         files=[BASE, NODES, LEAFS, 'delayed_image/lazy_loaders.py'],
         mech=[('readers', 'delayed_image/lazy_loaders.py: LazyGDalFrameFile, _reload_cache'), ('handle cache', 'delayed_image/lazy_loaders.py: GLOBAL_GDAL_CACHE'), ('leafs', LEAFS + ': DelayedLoad'), ('render', BASE + ': finalize')],
         observe=['finalize()', 'optimize()', 'get_overview()', 'reader[...]', '/proc/self/fd', 'weak references', 'gc', 'tracemalloc', 'files'],
         technique='random trees and readers under weak references, object counts, the table of open files, memory accounting and checksums of the files',
         note='After a garbage collection.'),
    dict(id='P26', title='A tree gives the same results in every process, whatever ran before',
         statement='Building, optimizing, rendering, deriving from and describing the same tree gives bitwise equal data, equal trees and the same failures in every process: '
         'for every hash seed, every order of other work done before, with and without assertions, garbage collection or another order of imports, and also for '
         'a tree that was pickled and sent to another process.',
         over=['programs', 'processes', 'histories'], qtext='all trees, all earlier work in the process, all hash seeds, all interpreter options of the kinds above',
         why='Tests run in one interpreter in one order with assertions on; state of the process, hash order and side effects in assertions do not show.',
         files=[BASE, NODES, LEAFS, 'delayed_image/lazy_loaders.py', 'delayed_image/helpers.py'],
         mech=[('optimizer memo', BASE + ': OptimizeContext'), ('channel selection', NODES + ': take_channels'), ('asserts', NODES + ': _finalize'), ('readers', 'delayed_image/lazy_loaders.py')],
         observe=['optimize()', 'finalize()', 'crop(), warp(), take_channels()', 'undo_warp()', 'as_graph()', 'nesting()', 'pickle'],
         technique='batches of random trees in several fresh interpreters with different settings and orders, the logs of all results compared',
         note='Trees that hold a listed spec cannot be pickled (known finding).'),
    dict(id='P27', title='Every spelling of an operation means the same',
         statement='Whether an operation is requested by method, indexing or class, with positional or keyword arguments, with python or numpy numbers, with negative, open or '
         'overlong slices, with a transform as an Affine, a matrix or a dictionary, with interpolation names or codes, with channels as text, spec or indexes, and whatever the '
         'memory layout of the data: the size, the channels, the type and the pixels of the result are the same (bitwise, unless the spelling itself rounds).',
         over=['programs', 'inputs'], qtext='all trees, all supported spellings of each operation in them, all memory layouts of the data',
         why='Tests call every operation in one or two spellings; the others take other code paths, many of them only when the tree is optimized.',
         files=[NODES, LEAFS, BASE, 'delayed_image/helpers.py'],
         mech=[('index spellings', NODES + ': _rectify_chan_idxs, DelayedCrop.__init__, __getitem__'), ('codes of interpolations', NODES + ': _interpolation_code'), ('scale, resize', NODES + ': ImageOpsMixin'), ('padding', NODES + ': _padded_crop')],
         observe=['crop(), [], warp(), scale(), resize(), take_channels(), dequantize(), get_overview()', 'Delayed* constructors', 'finalize()', 'dsize, channels'],
         technique='random trees built in a plain and in random other spellings, results compared as they are observed',
         note='Spellings the library does not support (lists as sizes or 2x3 matrices) are not used.'),
    dict(id='P28', title='Without GDAL the same files give the same images',
         statement='GDAL is optional: for files of formats that the other installed libraries read too (and that have no overviews), trees built where GDAL cannot be imported '
         'have the same sizes, channels, optimized structure and, bit by bit, the same pixels as with GDAL. What needs GDAL (nodata handling) is refused rather than ignored.',
         over=['programs', 'configurations'], qtext='all trees over such files',
         why='The tests always run with GDAL installed.',
         files=[LEAFS, 'delayed_image/lazy_loaders.py'],
         mech=[('fallback of loading', LEAFS + ': DelayedLoad._load_reference, _load_metadata, _finalize'), ('availability', 'delayed_image/lazy_loaders.py: LazyGDalFrameFile.available')],
         observe=['DelayedLoad', 'prepare()', 'optimize()', 'finalize()'],
         technique='the same random trees observed in an interpreter with GDAL and in one where importing it fails, logs of results compared',
         note='Formats whose shape PIL cannot tell (several bands that are not uint8) are refused by kwimage.'),
]

NOT_APPLICABLE = []
