#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one JSON object per line)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mechanism, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mechanism],
            observe_at=list(observe), hook_needed=hook)))

R, M, W = 'karabo_data/reader.py', 'karabo_data/read_machinery.py', 'karabo_data/writer.py'

p('C01', "Train-by-train access returns exactly what was recorded for that train",
  "For every train in an opened file, run or selection, fetching it by train ID, by index, or while iterating yields for each selected source and key exactly the values recorded for that train (one entry unwrapped, several stacked in recorded order), and nothing belonging to another train, source or key. Keys with no recorded data in that train are left out. Iteration visits the trains of the collection in order, each once; with require_all it visits exactly those trains in which every selected source and key has data.",
  ['inputs', 'histories'],
  "All placements of 0/1/2 entries per train over up to 4 trains, split over sequence files in every way, several sources and groups with different gaps, both index layouts; every order of accesses on shared and fresh objects.",
  "The tests' mock files hold only zeros and 1 or N equal entries per train, so wrong rows, off-by-one offsets, stale per-file handles and empty trains cannot be seen.",
  [R], [('train_from_id / train_from_index', R + ':DataCollection.train_from_id'), ('TrainIterator dataset cache', R + ':TrainIterator._find_data'), ('index reading', R + ':FileAccess.get_index'), ('missing data test', R + ':DataCollection._check_data_missing')],
  [('index cache', 'first/count arrays kept per file', R + ':FileAccess._index_cache'), ('dataset cache', 'last file+dataset per source/key during iteration', R + ':TrainIterator._datasets_cache')],
  ['DataCollection.train_from_id', 'DataCollection.train_from_index', 'DataCollection.trains'])

p('C02', "Whole-run arrays: exact values, order, train labels and region of interest",
  "Reading a source/key as one labelled array returns every recorded entry of every selected train exactly once, in train order and recorded order within a train, each row labelled with its own train ID, with the recorded dtype and shape. A region of interest gives exactly the same result as applying it to the full array. This holds however the data is split over consecutive files, whichever trains have no entries, and whichever trains are selected.",
  ['inputs', 'configurations'],
  "All count patterns 0/1/2 over up to 5 trains x all splits into sequence files x all subsets of selected trains x a menu of regions of interest x control/instrument sources.",
  "Tests compare shapes of all-zero data for a handful of selections; values, labels and row order are never checked across gaps and file boundaries.",
  [R, M], [('chunk discovery', R + ':DataCollection._find_data_chunks'), ('array assembly', R + ':DataCollection.get_array'), ('contiguous regions', M + ':contiguous_regions')],
  [], ['DataCollection.get_array'])

p('C03', "Series, data frames and per-train counts match the recorded data",
  "A scalar source/key read as a series has exactly one row per recorded entry of the selected trains, in train order, indexed by train ID (plus pulse ID where a train has several entries). A data frame lines up the requested series by those labels, with rows in train order, without losing, duplicating or shifting values and leaves timestamps out unless asked for. The reported number of entries per train equals the number recorded for every selected train present in that source's files.",
  ['inputs', 'configurations'],
  "All count patterns 0/1 (and 0/1/2 for pulse data) over up to 4 trains x all splits into files x all selected-train subsets x control, per-train and per-pulse sources x combinations of fields in a frame.",
  "Tests look at a few lengths on all-zero data; gaps, files without data and mixed pulse counts never occur.",
  [R], [('get_series', R + ':DataCollection.get_series'), ('get_dataframe', R + ':DataCollection.get_dataframe'), ('get_data_counts', R + ':DataCollection.get_data_counts')],
  [], ['DataCollection.get_series', 'DataCollection.get_dataframe', 'DataCollection.get_data_counts'])

p('C04', "Lazy and virtual views equal the eagerly read array",
  "The dask array and the virtual dataset for any source/key have exactly the shape, dtype, values and row order of the eagerly read array for the same selection, including when a file contributes no data and when the dask array has to be split to respect the chunk size limit. The virtual dataset's file identifies each row's train as the eager array does.",
  ['inputs', 'configurations'],
  "The same file/count/selection space as the eager array, crossed with dask and virtual views, plus datasets just below, at and above the chunk size limit.",
  "Tests check one dask array and one virtual dataset with one selection on zeros.",
  [R, W], [('dask chunking', R + ':DataCollection.get_dask_array'), ('virtual layout', W + ':VirtualFileWriter._assemble_data'), ('virtual dataset file', R + ':DataCollection.get_virtual_dataset')],
  [], ['DataCollection.get_dask_array', 'DataCollection.get_virtual_dataset'])

p('C05', "Written files and virtual files read back as the selection they were made from",
  "Writing any selection of sources, keys and trains, as a copy or as a virtual file, produces a file that opens as the same trains, sources and keys and returns the same data for every train through every reading method, and that passes validation. Sources missing from some or all trains do not make writing fail or shift the other data. When writing returns, the file is complete on disk, for other processes and whatever happens to this one, and it can be overwritten by writing again.",
  ['inputs', 'configurations', 'histories', 'crash_points'],
  "All count patterns over up to 4 trains x file splits x train and source selections (gaps, sources absent in some trains), both writers, re-written a second time from the written file; the files as they are on disk when writing returns, with the writer never collected.",
  "The writer test covers one selection with no gaps and checks only that some keys exist.",
  [W, R], [('index generation', W + ':FileWriter._generate_index'), ('control index', W + ':FileWriter._make_control_index'), ('virtual writer', W + ':VirtualFileWriter')],
  [('indexes', 'first/count per source group being written', W + ':FileWriter.indexes')], ['DataCollection.write', 'DataCollection.write_virtual', 'H5File'])

p('C06', "Selecting and deselecting sources and keys follows set algebra",
  "Selecting with globs, lists of glob pairs or a dict gives exactly the matching subset of what the collection already contains, and deselecting gives exactly the rest; repeated selections can only narrow. Selections that match nothing raise an error. The collection selected from, and every collection derived earlier, is unchanged.",
  ['histories', 'inputs'],
  "All sequences up to depth 3 of select/deselect calls from an alphabet of globs, lists and dicts (including empty key sets and already-narrowed sources), with every live collection re-checked after each step.",
  "Tests run a dozen single calls; composition of selections and aliasing of selection state are untested.",
  [R, M], [('selection expansion', R + ':DataCollection._expand_selection'), ('glob matching', R + ':DataCollection._select_glob'), ('deselect', R + ':DataCollection.deselect')],
  [('selection', '{source: keys or None for all}', R + ':DataCollection.selection')], ['DataCollection.select', 'DataCollection.deselect', 'keys_for_source', 'all_sources'])

p('C07', "Selecting trains by ID or index picks exactly the requested trains",
  "Selecting trains with a slice or list of train IDs keeps exactly the collection's trains inside the slice bounds (start included, stop excluded, step counted within it) or in the list; selecting by index takes what a list slice takes, or exactly the listed positions. Bounds need not be recorded train IDs: they may fall in gaps or outside the data, and a request overlapping nothing yields an error or no trains. Data read afterwards is exactly that of the kept trains.",
  ['inputs', 'histories'],
  "All train-ID sets drawn from a small universe with gaps (and shifted up to 64-bit IDs) x all slice bounds in, between and around them x steps x all lists of IDs and indices, chained to depth 2.",
  "Tests use a run of consecutive train IDs and about ten fixed selections.",
  [R, M], [('slice bounds', M + ':_tid_to_slice_ix'), ('select_trains', R + ':DataCollection.select_trains')],
  [('train_ids', 'sorted list of selected trains', R + ':DataCollection.train_ids')], ['DataCollection.select_trains', 'train_ids'])

p('C08', "Combining collections keeps all their data and rejects conflicting sources",
  "A union of collections holds the trains, sources and keys of all its operands and returns each operand's data unchanged, independent of the order and grouping of operands and without altering them; it never returns data that was not recorded for that source, key and train. Whenever two different files hold the same source for the same train, combining them is refused with an error naming the source instead of picking one silently, and otherwise it is accepted.",
  ['histories', 'inputs'],
  "All pairs and triples of collections derived by select/select_trains/deselect from up to three files with every overlap pattern of trains and sources, in all operand orders and groupings.",
  "Tests union two runs once and check a conflict once.",
  [R, M], [('union', R + ':DataCollection.union'), ('selection union', M + ':union_selections'), ('conflict check', R + ':DataCollection._check_source_conflicts')],
  [], ['DataCollection.union', 'RunDirectory'])

p('C09', "All supported file format variants read identically",
  "The same recorded data stored in any supported layout (old or new metadata location, first/last/status or first/count index, with or without preallocated unused space in the train list, indexes and datasets, empty source entries) gives identical results from every reading method. Unused preallocated space is never returned as data.",
  ['inputs', 'configurations'],
  "The full product of layout variants x count patterns x paddings, all reading methods, including runs mixing variants between files.",
  "Tests have two fixed variants and compare only metadata, never data.",
  [R], [('version switch', R + ':FileAccess._read_data_sources'), ('index variants', R + ':FileAccess._read_index'), ('train ID padding', R + ':FileAccess.__init__')],
  [], ['H5File', 'RunDirectory'])

p('C10', "Opening a run uses every usable file that matches, and only those",
  "Opening a run directory gives the combined data of exactly the readable data files matching the include pattern, whatever other files are present: broken, truncated, empty or foreign files are reported and skipped without affecting the rest. It fails only if no file matches or none is usable. The result does not depend on directory listing order or on whether a valid cache of the run's layout exists.",
  ['inputs', 'configurations', 'fault_sequences'],
  "All subsets of a menu of usable and unusable directory entries x include patterns x permutations of listing order x with and without cache.",
  "Tests cover one broken file in one directory.",
  [R, 'karabo_data/run_files_map.py'], [('file filtering', R + ':RunDirectory'), ('skip unusable', R + ':DataCollection.from_paths')],
  [], ['RunDirectory', 'open_run'])

RM = 'karabo_data/run_files_map.py'
p('C11', "The run layout cache never changes what a user sees",
  "At any point of any history of opening a run, adding, replacing, appending to or removing its files, and the cache file being left over, partial or damaged, opening the run gives the same trains, sources and data as opening it with no cache at all, provided a changed file differs in size or modification time. A damaged, unreadable or unwritable cache is ignored rather than making opening fail. A cache entry written for a file always describes the very file contents it is stamped with.",
  ['histories', 'fault_sequences'],
  "Breadth-first over all histories to depth 4 of open (all files / include pattern), add, replace, delete, restore, copy with the same time, corrupt/partial/foreign cache contents, on run directories of up to 3 files; both cache locations.",
  "Tests cover three fixed two-step histories.",
  [RM, R], [('validity check', RM + ':RunFilesMap.load'), ('cache lookup', RM + ':RunFilesMap.get'), ('cache update', RM + ':RunFilesMap.save')],
  [('files_data', 'valid cache entries by filename', RM + ':RunFilesMap.files_data')], ['RunDirectory', 'karabo_data_map.json'])

p('C12', "Cache updates are atomic under crashes, I/O errors and concurrent opens",
  "Whatever step of writing the cache a process crashes at or gets an I/O error from, and however several processes opening the same run interleave, the cache file always holds either a complete earlier version or a complete new version. Every opener that does not crash succeeds and sees the true run contents. Failure to write the cache is tolerated, and errors leave no temporary files behind.",
  ['crash_points', 'fault_sequences', 'schedules'],
  "Every file-system operation of an open as a crash point (with every torn prefix class of the data written) and as a failing operation (permission, read-only, no space, I/O error); all interleavings of two openers at file-system operation level up to 2 preemptions, with a data file replaced at any point.",
  "No test injects a fault or overlaps two openers.",
  [RM], [('atomic_dump', RM + ':atomic_dump'), ('save', RM + ':RunFilesMap.save'), ('load', RM + ':RunFilesMap.load')],
  [], ['RunDirectory', 'karabo_data_map.json'])

CP = 'karabo_data/components.py'
p('C13', "Detector arrays hold the right data for each module, train and pulse",
  "Reading a multi-module detector key as one array gives, at each (module, train, pulse), exactly the value recorded there for the selected modules, trains and pulses, and only fill values where nothing was recorded. Selecting pulses by ID or by index, as slice, list or number, gives exactly the matching pulses of each train. This holds when modules miss different trains or whole files and when data is split over sequence files.",
  ['inputs', 'configurations'],
  "All presence patterns of up to 3 modules x 4 trains with 0 or N frames, sequence splits, train gaps, differing pulse tables x an exhaustive menu of pulse selections by ID and index x raw and processed layouts.",
  "Tests use complete all-zero mock detectors and look at dimension sizes.",
  [CP], [('chunk reading', CP + ':MPxDetectorBase._get_module_pulse_data'), ('pulse selection', CP + ':MPxDetectorBase._select_pulse_ids'), ('axes', CP + ':_guess_axes')],
  [('train_id_chunks', 'runs of consecutive train IDs', CP + ':MPxDetectorBase.train_id_chunks')], ['AGIPD1M.get_array', 'LPD1M.get_array', 'DSSC1M.get_array'])

p('C14', "Iterating detector trains gives the same data as the detector array",
  "Iterating over a detector's trains visits, in order, exactly the selected trains in which all selected modules have data, and gives for every key the values recorded for each module and selected pulse of that train, the same as reading the whole array and picking that train.",
  ['inputs', 'configurations'],
  "The detector space of C13 x the same pulse selections, all trains in sequence and via fresh and shared iterators.",
  "One test iterates one complete detector and checks shapes.",
  [CP], [('iterator', CP + ':MPxDetectorTrainIterator'), ('completeness test', R + ':DataCollection._check_data_missing')],
  [('dataset cache', 'last file+dataset per source/key', CP + ':MPxDetectorTrainIterator._datasets_cache')], ['AGIPD1M.trains', 'LPD1M.trains'])

CX = 'karabo_data/write_cxi.py'
p('C15', "Virtual CXI files place every frame at its train, pulse and module",
  "In a virtual CXI file made from detector data, row i of every dataset corresponds to the i-th (train, pulse) listed in the file, and column m holds exactly the frame, gain, mask and cell ID recorded by module m for it; frames a module did not record hold the fill value. Every frame of every selected train appears exactly once, for any pattern of missing modules and trains and any split into files. Axes are named as in the file, and modules which disagree about the pulse of a frame are refused.",
  ['inputs', 'configurations'],
  "All presence patterns of up to 3 modules x 4 trains (and 16 modules x 70 trains) x sequence splits x train gaps x min_modules x raw and processed layouts x 1-D and 2-D pulse tables; by the method and by the command.",
  "Tests check shapes on one complete run of zeros.",
  [CX, CP], [('chunk mapping', CX + ':VirtualCXIWriter._map_chunk'), ('pulse IDs', CX + ':VirtualCXIWriter.collect_pulse_ids'), ('layouts', CX + ':VirtualCXIWriter.collect_data')],
  [], ['write_virtual_cxi', 'karabo-data-make-virtual-cxi'])

ST = 'karabo_data/stacking.py'
p('C16', "Stacked detector data equals the modules in order, with missing ones filled",
  "Stacking detector data for one train puts each module's array at its module number along the chosen axis and the fill value (by default NaN for floats, 0 for integers) wherever a module has no data, and the copy-free view returns the same numbers as the real array for every supported indexing, in any order of accesses. General stacking orders sources by the numbers in their names. Mismatched, empty or out-of-range inputs raise an error instead of giving wrong data.",
  ['inputs', 'histories'],
  "All subsets of up to 4 modules with data/empty/absent x axes x dtypes x fill values; all sequences up to depth 2 of supported index expressions on the view, compared with numpy on the stacked array.",
  "Tests index the view a few times for one configuration.",
  [ST], [('stack_detector_data', ST + ':stack_detector_data'), ('StackView', ST + ':StackView'), ('stack_data', ST + ':stack_data')],
  [('view data', 'module arrays incl. lazily created fill blocks', ST + ':StackView._data')], ['stack_data', 'stack_detector_data', 'StackView'])

EX = 'karabo_data/export.py'
p('C17', "Streaming delivers every train once and in order, and shuts down cleanly",
  "For every interleaving of the feeding thread, the serving thread and a client, each request is answered with the next fed train: no train is lost, repeated, reordered or mixed with another. Feeding blocks only while the buffer is full, and stopping always terminates and frees the port. Serving a file or run to a client that keeps requesting delivers all of its trains before shutting down, which frees the port as well.",
  ['schedules'],
  "All thread interleavings (preemption-bounded) of feeder, server and client over queue, socket and event operations, for buffer sizes 1-2 and up to 4 trains, including clients that stop early, never connect or send wrong requests, and stop at every point.",
  "Tests run one lucky real-time schedule with a client that is always ready.",
  [EX], [('buffer', EX + ':ZMQStreamer.feed'), ('server loop', EX + ':REPInterface.run'), ('stop', EX + ':ZMQStreamer.stop')],
  [('buffer', 'serialised trains waiting', EX + ':ZMQStreamer._buffer'), ('stop event', 'asks the server loop to end', EX + ':REPInterface._stop_event')], ['ZMQStreamer', 'serve_files'])

p('C18', "Streamed messages decode to the data and metadata that were fed",
  "Decoding a streamed train with the bridge client gives back the same sources, keys, values, dtypes, shapes and metadata that were fed, in the form of the protocol version asked for, for both versions, for scalars, strings, lists and arrays of any layout in memory. Explicit metadata is used where given and taken from the data otherwise; dummy timestamps are added only where missing, and the caller's data and metadata are left as they were.",
  ['inputs', 'histories'],
  "All combinations from a menu of value kinds (numpy scalars, Python scalars, arrays: C/Fortran/strided/empty/0-d/big-endian) x metadata modes x timestamps option x protocols, fed in sequences of two.",
  "One test per protocol with one contiguous array.",
  [EX], [('serialisation', EX + ':ZMQStreamer._serialize')], [], ['ZMQStreamer.feed', 'karabo_bridge.Client'])

VA = 'karabo_data/validation.py'
p('C19', "Validation accepts consistent files and reports every kind of inconsistency",
  "Validating a file or run reports no problem exactly when the train IDs are strictly increasing, with zeros only as padding after the last one, and every index of instrument data is complete, starts at zero, is contiguous and stays within its datasets; any single or double deviation from this is reported, and validation never crashes on it. For runs, unreadable files and cache entries that contradict the files are also reported.",
  ['inputs', 'fault_sequences'],
  "Every single and every pair of deviations from a menu applied at every position of small valid files (both index layouts, padded and unpadded), and every cache state, for files and runs.",
  "One test validates one good file.",
  [VA], [('index checks', VA + ':FileValidator.check_indices'), ('train ID checks', VA + ':FileValidator.check_trainids'), ('run checks', VA + ':RunValidator')],
  [], ['FileValidator', 'RunValidator', 'karabo-data-validate'])

GE = 'karabo_data/geometry2/__init__.py'
p('C20', "Assembled detector images show each pixel exactly once at its place",
  "Assembling an image places every pixel of every module exactly once, at the rounded position and in the orientation given by the geometry, NaN everywhere else (0 for dtypes without NaN), for any dtype, memory layout and extra leading dimensions. The reported centre is the position of the geometry's origin in that image. An output array passed in is returned with every covered pixel replaced, whatever it held before, and the rest untouched; data or outputs of the wrong shape, or needing an unsafe cast, are refused. The older LPD geometry class likewise places every pixel once, NaN elsewhere, each tile within a pixel of its recorded position relative to the reported centre.",
  ['inputs', 'configurations', 'histories'],
  "AGIPD, LPD and DSSC geometries from a lattice of quadrant positions (sub-pixel offsets, asymmetric and shifted quadrants) x data shapes x fresh/reused outputs in all short sequences of assemblies.",
  "Tests check the shape and a couple of NaNs for one geometry.",
  [GE], [('snapped geometry', GE + ':SnappedGeometry'), ('fragment snapping', GE + ':GeometryFragment.snap'), ('tile splitting', GE + ':DetectorGeometryBase.split_tiles')],
  [('snapped cache', 'geometry snapped to the pixel grid, computed once', GE + ':DetectorGeometryBase._snapped_cache')], ['position_modules_fast', 'output_array_for_position_fast'])

p('C21', "All geometry views agree on where each pixel is",
  "For any geometry, the centre coordinates of every pixel, the conversion of data coordinates to positions, and the pyFAI distortion corners all describe the same physical pixel positions, which follow from the quadrant or tile positions supplied, in metres, regardless of the length unit they were supplied in. Interpolated assembly draws each pixel where snapped assembly does when pixels lie on the grid, and at its true position otherwise.",
  ['inputs', 'configurations'],
  "A lattice of quadrant positions and units for AGIPD, LPD and DSSC, all modules, all pixels of every tile.",
  "Tests spot-check one or two coordinates in one unit.",
  [GE], [('pixel positions', GE + ':DetectorGeometryBase.get_pixel_positions'), ('data coordinates', GE + ':DetectorGeometryBase.data_coords_to_positions'), ('distortion', GE + ':DetectorGeometryBase.to_distortion_array')],
  [], ['get_pixel_positions', 'data_coords_to_positions', 'to_distortion_array', 'position_modules_interpolate'])

p('C22', "CrystFEL geometry files round-trip",
  "Writing any geometry to a CrystFEL file states the position, orientation and data slice of every panel as CrystFEL defines them, and loading that file reproduces the position of every pixel to within the printed precision, whichever header options, data layout, mask paths or photon energy are given. The header states exactly what was asked for. Loading does not depend on the order of panels in the file.",
  ['inputs', 'configurations'],
  "A lattice of geometries for each detector x all combinations of header options x dims x panel orders.",
  "Tests round-trip one geometry per detector with one option set.",
  [GE, 'karabo_data/geometry2/crystfel_fmt.py'], [('writer', 'karabo_data/geometry2/crystfel_fmt.py'), ('reader', GE + ':GeometryFragment.from_panel_dict')],
  [], ['write_crystfel_geom', 'from_crystfel_geom'])

p('C23', "Threads sharing one collection each read correct data",
  "When several threads read from the same collection, or from collections derived from it, each thread gets exactly what it would get alone, in every interleaving, and none of them fails because of another's progress.",
  ['schedules'],
  "All interleavings at source-line granularity, with at most 1 preemption (2 for pairs of short operations), of two threads performing every pair of operations (first access of file, index, keys, geometry; select, iterate, array) on cold shared objects, starting with either thread.",
  "No test uses more than one reading thread.",
  [R, GE], [('lazy file open', R + ':FileAccess.file'), ('index cache', R + ':FileAccess.get_index'), ('keys cache', R + ':FileAccess.get_keys'), ('snapped cache', GE + ':DetectorGeometryBase._snapped')],
  [('lazy caches', 'file handle, version, index, keys', R + ':FileAccess')], ['DataCollection', 'FileAccess'])

p('C24', "Opening a run by proposal and run number finds the right directory",
  "Opening a run by proposal and run, each given as an integer, digits, prefixed name or (for proposals) a directory path, in any combination, opens exactly the directory of that proposal, run and data folder under the data root, with the include pattern applied, and fails if there is none.",
  ['inputs', 'configurations'],
  "All spellings of proposal and run x raw/proc x data-root trees with several instruments, cycles, proposals and look-alike neighbours.",
  "Tests try a few spellings in a tree with one proposal.",
  [R, M], [('open_run', R + ':open_run'), ('find_proposal', M + ':find_proposal')], [], ['open_run'])

p('C25', "Summaries state the true contents of files and runs",
  "The summaries printed or returned for files, runs, single trains and detectors (train counts, first and last train, sources, detector modules, dimensions and frames per train) agree with the data for every file and run, are complete, and never fail on a readable one. Paths which don't exist or hold no known data, given to lsxfel with others, are reported with a nonzero exit code and don't keep the others from being described.",
  ['inputs', 'configurations'],
  "All small runs from the count/split/source space incl. detector-only, aggregated-only, mixed, empty-train files and unknown file name patterns; every summary method and command.",
  "One test per command on one run, checking only that it exits.",
  [R, 'karabo_data/lsxfel.py'], [('info', R + ':DataCollection.info'), ('train_info', R + ':DataCollection.train_info'), ('lsxfel', 'karabo_data/lsxfel.py')], [], ['DataCollection.info', 'detector_info', 'train_info', 'lsxfel'])

p('C26', "The frame viewer always shows the frame at its current position",
  "Through any sequence of loading data, stepping forwards and backwards, setting the position and displaying a chosen frame, the viewer's position stays within the data, the displayed image is the frame named in its title, stepping past either end stays at that end, and invalid positions or data are rejected without changing anything.",
  ['histories'],
  "All operation sequences (explicit-state search to closure) over stacks of 1-3 frames and their replacement by other stacks.",
  "Tests cover construction and a few steps.",
  ['karabo_data/utils.py'], [('QuickView', 'karabo_data/utils.py:QuickView')], [('_current_index', 'position', 'karabo_data/utils.py:QuickView')], ['QuickView'])

p('C27', "Detector interfaces pick the right modules and trains",
  "Building a detector interface finds the matching detector, uses exactly the requested modules that exist, numbered as in their source names, and keeps exactly the trains in which at least the requested number of those modules have data. Data without that detector, with several candidates, with inconsistent frame counts or with too few modules is refused with an error.",
  ['inputs', 'configurations'],
  "All presence patterns of up to 3 modules x 4 trains x requested module sets x min_modules x detector names, one or two detectors and unrelated sources in the data.",
  "Tests cover one incomplete and one complete mock run.",
  [CP], [('source identification', CP + ':MPxDetectorBase._identify_sources'), ('train selection', CP + ':MPxDetectorBase._select_trains')], [], ['AGIPD1M', 'LPD1M', 'DSSC1M'])

p('C28', "File handles are closed on request and reopened when needed",
  "Leaving a with-block on an opened file or run closes every data file it opened, however many collections were derived from it and whichever reads were done; reading afterwards either works by reopening and returns correct data, and derived collections refuse to be used as context managers.",
  ['histories'],
  "All sequences up to depth 4 of open, enter, exit, derive, read, iterate-partway and re-read on files and runs, with open handles counted after each step.",
  "One test checks that a closed file is closed.",
  [R], [('context manager', R + ':DataCollection.__exit__'), ('lazy open', R + ':FileAccess.file'), ('close', R + ':FileAccess.close')], [('_file', 'open handle or None', R + ':FileAccess._file')], ['DataCollection.__enter__', 'DataCollection.__exit__'])

p('C29', "Listing and conversion tools lose nothing",
  "h5index lists every dataset of a file or group exactly once with its path, shape and dtype, as CSV which reads back whatever characters the names contain; hdf5_paths shows the whole tree in order, up to the given number of entries per group. Converting a frame of integer data to CBF, from an array or from a data file of either format version, keeps every pixel and the given header; frames that don't exist and files without images are refused, leaving no file. Inverting an LPD geometry file negates every position and keeps the rest, never overwriting a file. None of these changes its input or keeps files open.",
  ['inputs', 'configurations'],
  "All small trees of groups x odd names x dataset kinds, large groups, both file formats, every integer dtype x memory layout x frame, geometry files over positions and units.",
  "One test converts one frame and checks that a file exists.",
  ['karabo_data/h5index.py', 'karabo_data/utils.py', GE], [('h5index', 'karabo_data/h5index.py:hdf5_datasets'), ('tree', 'karabo_data/utils.py:hdf5_paths'), ('CBF', 'karabo_data/utils.py:hdf5_to_cbf'), ('LPD inversion', GE + ':invert_xfel_lpd_geom')], [], ['hdf5_datasets', 'hdf5_paths', 'hdf5_to_cbf', 'numpy_to_cbf', 'invert_xfel_lpd_geom'])

p('C30', "Pictures show the detector as its geometry says",
  "Plots of detector data show every pixel's value once, within a pixel of its place, with the geometry's origin at (0, 0), axes in the requested unit (pixels or metres), x increasing to the left in front view and to the right otherwise, y upwards, and pixels in their true proportions, on new or given axes. Layout plots draw every tile with its corners in place, mark the first pixel and first row of every module, and label modules and tiles where they are. A comparison draws this geometry's tiles and an arrow from each corner of each tile that moved to its scaled new place, and all of it is visible on the axes. Other units are refused.",
  ['inputs', 'configurations', 'histories'],
  "AGIPD, LPD and DSSC geometries over quadrant positions, files and tile orientations x units x views x sequences of plots on new and given axes; pairs of AGIPD geometries differing in chosen tiles x arrow scales.",
  "Tests only check that an axes object is returned.",
  [GE], [('data plots', GE + ':SnappedGeometry.plot_data'), ('layout', GE + ':DetectorGeometryBase.inspect'), ('comparison', GE + ':AGIPD_1MGeometry.compare')], [('snapped cache', 'geometry snapped to the pixel grid', GE + ':DetectorGeometryBase._snapped_cache')], ['plot_data_fast', 'inspect', 'compare'])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for x in P:
        f.write(json.dumps(x) + '\n')
print(len(P), 'properties')
