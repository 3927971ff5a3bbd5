"""Writes /verif/properties.jsonl (kept as a script so that the text stays reviewable)."""
import json, os
P = []
B = 'src/eventio/base.py'; S = 'src/eventio/simtel/simtelfile.py'; SO = 'src/eventio/simtel/objects.py'
I = 'src/eventio/iact/__init__.py'; IO = 'src/eventio/iact/objects.py'; H = 'src/eventio/header.pyx'
V = 'src/eventio/var_int.pyx'; SP = 'src/eventio/simtel/parsing.pyx'; T = 'src/eventio/tools.py'
F = 'src/eventio/file_types.py'; SU = 'src/eventio/search_utils.py'; HI = 'src/eventio/histograms.py'
SC = 'src/eventio/scripts/'

def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(
        id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(
            files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=list(observe), hook_needed=hook)))

prop('C01', 'Every stored object is delivered once, in order, exactly framed',
 'Iterating an eventio file, and recursively every container object in it, delivers each stored object exactly once, in stored order, with exactly the type, version, id, user/extended/container flags, content address and content size that were written, and reading it returns exactly its payload bytes. This holds for unknown object types, empty objects, any nesting depth and extended (64 bit) lengths, and is the same for uncompressed, gzip (external helper or Python module) and zstd storage, single- or multi-member/frame, however the operating system slices and delays the bytes.',
 ['inputs', 'schedules', 'configurations'],
 'All object trees x all storage containers and their member/frame splits x all byte-delivery schedules of the helper pipe and file layer.',
 'Tests read a few fixed files, each in one container, and let the kernel pick one byte delivery; no multi-frame zstd, no multi-member gzip, no short pipe reads, no extended or >=1 GiB object is ever read.',
 [B, H, F], [('EventIOFile._read_next_object / EventIOObject.__next__', B), ('parse_header_bytes', H), ('PipeWrapper.read/seek', B), ('is_eventio/is_gzip/is_zstd', F)],
 [('_next_header_pos', 'where the next header starts', B + ':EventIOFile'), ('PipeWrapper.pos', 'bytes consumed from the helper pipe', B)],
 ['EventIOFile iteration', 'EventIOObject iteration', 'EventIOObject.header', 'EventIOObject.read'])
prop('C02', 'A torn file yields its complete prefix, then a truncation error',
 'If a file ends early at any byte (producer crash, torn copy, full disk), iterating it delivers exactly the top-level objects whose header survived (with the few leading payload bytes that some classes read on opening), unchanged, and then raises EOFError (or an OSError of the decompressor if the compressed stream is torn inside the header of a further member); it ends cleanly only if the cut is exactly on an object boundary. It never delivers an object whose header is incomplete, never loses or repeats an earlier one, and asking again after the end never produces another object.',
 ['crash_points', 'inputs', 'configurations'],
 'All cut positions in all files in every container (cut in the stored bytes or in the compressed stream).',
 'The two truncated test files are cut at one accidental byte each (and are not in this copy); a cut inside the payload of the last object is never exercised.',
 [B, H], [('check_size_or_raise', B), ('read_sync_marker/read_header', B), ('parse_header_bytes length check', H), ('EventIOFile._read_next_object', B)],
 [('_next_header_pos', 'advanced only after a complete header', B)], ['EventIOFile.__next__', 'EventIOObject.__next__'])
prop('C03', 'A torn payload is never decoded as if it were complete',
 'When the file ends inside the payload of an object, reading past the surviving bytes of that object or decoding it raises EOFError; no partial or default-filled value is returned as if the object were complete, and no other error kind is raised. Objects stored completely before the cut still decode to the values written.',
 ['crash_points', 'inputs'],
 'All object types and versions x all cut positions inside their payload (also inside nested sub-objects) x all storage containers.',
 'No test decodes an object with a cut payload; there are about 45 object types with several versions and every payload byte is a different crash point.',
 [B, SO, IO, HI], [('EventIOObject.read', B), ('read_remaining_with_check', SO), ('tools.read_*', T)],
 [('_pos', 'cursor inside the payload', B + ':EventIOObject')], ['EventIOObject.parse', 'EventIOObject.read'])
prop('C04', 'Records durable before a crash decode to exactly the values written',
 'Whatever a producer had completely written before it stopped at an arbitrary point is decoded to exactly the values it wrote: for every supported object type and version, parsing each surviving object returns every field with the written value, shape and length, and what the object tells about itself before it is parsed (telescope, array, event or run number, counts) is what was written. This is independent of the storage container, of which objects surround it, and of where the crash happened afterwards.',
 ['inputs', 'crash_points', 'configurations'],
 'All field values of all supported object types/versions (varint widths, negative deltas, zero suppression, optional blocks, flags, empty lists) x crash points x containers.',
 'Tests compare a handful of values from a few recorded files; most optional branches (old versions, zero-suppressed modes, trigger-section lists, raw/corrected tracking, extra shower parameters) never execute.',
 [SO, IO, V, SP, T, HI], [('parse methods', SO), ('parse methods', IO), ('varint decoders', V), ('parse_mc_event/read_sector_information', SP)],
 [], ['EventIOObject.parse of every registered class'])
prop('C05', 'Object contents do not depend on access history (seekable files)',
 'On a seekable file, what any object returns when it is read, sought, iterated or decoded depends only on the file and on that object\'s own position, never on which other objects were opened, read, iterated, peeked or decoded in between, in which order or how often. Decoding an object twice gives equal results, reading is confined to the object\'s own payload, and relative seeks move relative to the object\'s own position.',
 ['histories', 'schedules', 'inputs'],
 'All interleavings of next, peek, container iteration, read, seek, tell and parse over all live objects of one file.',
 'Tests access objects strictly in file order, one at a time, and decode each once; all objects share one file handle so only interleavings can expose cursor bugs.',
 [B, SO, IO], [('EventIOObject.seek/read/tell', B), ('seek(0) at the start of parse', SO)],
 [('_filehandle', 'one handle shared by all objects of a file', B), ('_pos', 'per-object cursor', B)], ['EventIOObject.read/seek/tell/parse/__next__', 'EventIOFile.__next__'])
prop('C06', 'Forward-only sources refuse to go back and never return misplaced bytes',
 'On a source that can only move forward (gzip helper pipe, zstd stream), any mixture of reading, skipping, iterating and decoding either returns exactly the bytes or values stored at the requested place, or raises an error because it would have to move backwards. Such a refused access leaves the source usable: continuing forward still delivers every later object exactly.',
 ['histories', 'schedules'],
 'All interleavings of forward and backward accesses over live objects x all pipe delivery schedules.',
 'Tests contain two backward accesses on one zstd file (missing here) and none on the helper pipe; position bookkeeping after partial reads and skips is never cross-checked.',
 [B], [('PipeWrapper.seek/read/tell', B), ('EventIOObject.seek', B)],
 [('PipeWrapper.pos', 'logical position of the pipe', B)], ['EventIOFile', 'EventIOObject'])
prop('C07', 'Peeking never changes what is read',
 'Peeking any number of times returns the very object that the next read delivers and neither skips, repeats nor reorders objects; it returns None exactly when no further complete header can be read. A truncation or read error met while peeking is announced by a warning, is not repeated on further peeks, and reading on afterwards raises the failure (or continues, if the cause has gone) instead of ending cleanly.',
 ['histories', 'crash_points', 'fault_sequences'],
 'All interleavings of peek and next (also through the event iterators) on intact, torn and temporarily failing files in every container.',
 'Tests use one strict peek-next alternation on an intact file; the torn-file test cannot run in this copy and no test mixes peek with event iteration or transient errors.',
 [B, I], [('EventIOFile.peek/__next__', B), ('IACTFile.__iter__', I)],
 [('next', 'the peeked object', B), ('peek_error', 'latched failure', B)], ['EventIOFile.peek', 'EventIOFile.__next__', 'IACTFile iteration'])
prop('C08', 'Damaged storage never ends in a clean end of file',
 'If stored bytes are lost, zeroed, flipped, inserted or removed so that an expected object start marker is not there, iteration raises ValueError at that object (NotImplementedError for the big-endian marker) after delivering every earlier object unchanged; it never resynchronises or skips. If a checksummed compressed file is damaged, iterating it to the end never finishes cleanly unless every object and payload byte is as originally stored.',
 ['fault_sequences', 'inputs'],
 'All damage patterns (bit flips, zeroed or lost sectors, insertions, deletions) at all positions in plain, gzip and checksummed zstd files, with every helper-process timing.',
 'No test reads a damaged file.',
 [B, F], [('check_sync_bytes', B), ('read_sync_marker', B), ('gzip helper process and its exit status', B)],
 [], ['EventIOFile constructor', 'EventIOFile.__next__'])
prop('C09', 'A failing decompression helper never loses data silently',
 'If the external gzip program is missing or cannot be started, a gzip file is read completely through the Python decompression, with the same result. If it fails at once, is killed at any point of its output or stalls, the file is either read completely with the same result as otherwise, or the reader delivers an unchanged prefix and then raises an error or warning. It never reports a clean end of file before all objects were delivered, and never hangs because of the order in which helper and reader run.',
 ['fault_sequences', 'schedules', 'crash_points'],
 'All helper failure kinds x all output offsets x all relative speeds of helper and reader, for low-level and event-level readers.',
 'Tests run the real helper, which never fails; the failure branch and its race with process start-up are never taken.',
 [B, S], [('EventIOFile.__init__ helper start and fallback', B), ('PipeWrapper', B)],
 [('read_process', 'the gzip helper', B)], ['EventIOFile', 'SimTelFile', 'IACTFile'])
prop('C10', 'Read errors surface, and a retry continues exactly where it failed',
 'An operating system read error or an interrupt during any operation is reported to the caller, never turned into a clean end of file, a shorter result or an omitted object or event. On an uncompressed file a failed low-level operation (next, container iteration, read, decode) has no effect: repeating it once the fault has gone gives exactly the result it would have given without the fault.',
 ['fault_sequences', 'histories'],
 'All placements of I/O errors and interrupts on the reads and seeks of all operation sequences; every reader class.',
 'No test injects an I/O error.',
 [B, S, I], [('EventIOFile._read_next_object advances only on success', B), ('EventIOObject.__next__', B), ('SimTelFile._read_next_event exception filter', S)],
 [('_next_header_pos', 'resume position', B)], ['EventIOFile', 'EventIOObject', 'SimTelFile', 'IACTFile'])
prop('C11', 'Closing releases every resource, at any point',
 'Whenever a reader is closed, left by its with-block (also through an exception), dropped by the program, or fails in its constructor - at any point of reading, after any error, in any container - the operating system files it opened are closed and its helper process is terminated and reaped. Closing is idempotent, does not raise, takes bounded time even if the helper does not react, and afterwards no operation delivers further data from the file.',
 ['crash_points', 'fault_sequences', 'schedules'],
 'All points of closing/dropping x all reader classes x all containers x all helper states (running, blocked, finished, killed, unresponsive).',
 'Tests never look at file descriptors or child processes and never close in the middle of a helper read.',
 [B, S, I], [('EventIOFile._cleanup via weakref.finalize', B), ('SimTelFile.close', S), ('PipeWrapper.close', B)],
 [('_finalize', 'single-shot cleanup', B)], ['close', '__exit__', 'garbage collection', 'failed constructors'])
prop('C12', 'SimTelFile delivers every event once, in order, correctly assembled',
 'For every run following the documented file structure, SimTelFile delivers each calibration event and each air-shower use exactly once, in file order, and each delivered event carries exactly its own shower, event, trigger, per-telescope, tracking, photoelectron, photon, particle and reconstruction data as stored, with nothing from any other event, also if the position of the underlying seekable file is moved between events. Run-level data (headers, metadata, input cards, profiles, telescope descriptions, histograms) are exposed completely and under the right telescope ids. Objects the reader does not expect, at any level, are left out and never end the iteration or change the data of an event. An event in which a telescope with data has no stored tracking position is refused with NoTrackingPositions, not delivered incomplete.',
 ['inputs', 'histories', 'configurations'],
 'All sequences of top-level objects permitted by the documented structure (re-used showers, untriggered uses, optional blocks, packed or unpacked calibration events, merged headers, unknown objects) x containers.',
 'Tests iterate about ten recorded files and mostly count events; cross-event contamination, optional blocks appearing for only some events, and most orderings are never seen.',
 [S, SO], [('SimTelFile._parse_next_object', S), ('parse_array_event/parse_telescope_event/parse_telescope_data', S), ('TelescopeEvent/TrackingPosition type<->telescope id mapping', SO)],
 [('current_event', 'event under construction', S), ('current_mc_shower', 'shower shared by its uses', S), ('current_obslev_particles', 'particles of the current shower', S)], ['SimTelFile iteration', 'SimTelFile attributes'])
prop('C13', 'A torn simulation file yields a prefix of its events, with a warning',
 'If a sim_telarray file ends early at any byte after its run header block, iterating it delivers the same events as the intact file up to the cut: all earlier events unchanged, the last one holding only its objects that were stored completely, then iteration ends with no exception, and with a warning whenever the cut was inside an object. If it ends within the run header block, opening it raises EOFError.',
 ['crash_points', 'inputs', 'configurations'],
 'All cut positions x all run structures x containers x selection options.',
 'The truncated test files are cut at one byte each (and are missing here); every other byte is a different crash point reaching a different decoder.',
 [S, B, SO], [('SimTelFile._read_next_event', S), ('read_remaining_with_check', SO), ('EventIOObject.read', B)],
 [('current_event', 'event under construction when the file ends', S), ('_finished', 'no more events', S)], ['SimTelFile constructor and iteration'])
prop('C14', 'Event selection equals filtering the full reading',
 'Reading a sim_telarray file with any combination of skip_non_triggered, skip_calibration and allowed_telescopes delivers exactly the events, in order and with exactly the contents, that remain when the unrestricted reading is filtered accordingly: untriggered or calibration events removed, per-telescope event and tracking data restricted to the allowed telescopes (an event in which none of them has data keeps its event-level information only). Selecting never alters, merges or drops any other event, on intact and torn files alike.',
 ['configurations', 'inputs', 'crash_points'],
 'All option combinations x all telescope subsets x all run structures x crash points.',
 'Tests use one telescope subset on one (missing) file and one calibration file.',
 [S], [('SimTelFile._check_skip', S), ('parse_array_event early break', S)], [], ['SimTelFile iteration'])
prop('C15', 'Delivered events never change; monitoring data is as of the event',
 'An event, once delivered, keeps all its contents unchanged however far the reader advances, whatever monitoring or calibration updates follow, and even after the file is closed. The camera monitoring, laser calibration and pixel monitoring attached to an event are, for each of its telescopes, exactly the cumulative state recorded in the file before that event\'s data.',
 ['histories', 'inputs'],
 'All histories of monitoring/calibration updates interleaved with events, and all numbers of steps the reader advances before the event is inspected.',
 'Tests inspect each event immediately and use files in which monitoring data is written once.',
 [S], [('SimTelFile._add_monitoring copies', S), ('dict.update of monitoring state', S)],
 [('camera_monitorings/laser_calibrations/pixel_monitorings', 'cumulative state per telescope', S)], ['events delivered earlier'])
prop('C16', 'IACTFile delivers every use of every shower exactly once',
 'For every CORSIKA/IACT file of the documented structure (normal or split mode, with or without profile, longitudinal, particle or emitter data), iteration delivers one event per shower and array use, in order, with that use\'s offsets and weight, that use\'s photon bunches and counts per telescope, and the shower\'s own header, end block, longitudinal and particle data. Starting a new iteration on a seekable file delivers the same events again from the first one, whatever was read before.',
 ['inputs', 'histories', 'configurations'],
 'All file contents (numbers of showers, uses, telescopes, empty bunches, compact/long formats) x containers x histories of partial iterations.',
 'Tests read six small files, mostly checking the first event; re-iteration is only tried right after one event.',
 [I, IO], [('IACTFile.__iter__', I), ('Photons.parse', IO)],
 [('_first_event_byte', 'restart position', I)], ['IACTFile iteration', 'IACTFile attributes'])
prop('C17', 'A torn CORSIKA file yields only complete showers, then EOFError',
 'If a CORSIKA/IACT file ends early at any byte after its header block, iteration delivers all events of every shower whose end block was completely stored, unchanged, no event of any other shower, and then raises EOFError. If it ends within the header block, opening it raises EOFError.',
 ['crash_points', 'inputs', 'configurations'],
 'All cut positions x all file structures x containers.',
 'No test reads a torn CORSIKA file.',
 [I, IO, B], [('IACTFile.__iter__ buffers uses until the end block', I), ('EventIOObject.read', B)], [], ['IACTFile constructor and iteration'])
prop('C18', 'Concurrently open readers do not influence each other',
 'Any number of readers of any class open at the same time in one process - used alternately in one thread or each from its own thread, under every interleaving, with files of different content, versions and array sizes - each deliver exactly what they deliver when used alone, including the error one of them meets.',
 ['schedules', 'inputs', 'fault_sequences'],
 'All thread interleavings (preemption at every source line and I/O call) and step interleavings of several readers.',
 'Every test has exactly one reader open in one thread, so shared caches, class attributes or module state cannot show.',
 [B, S, I, 'src/eventio/simtel/runheader_dtypes.py', 'src/eventio/simtel/pixelset.py'], [('per-instance state only', B), ('lru_cache keyed dtypes', 'src/eventio/simtel/runheader_dtypes.py'), ('KNOWN_OBJECTS registry', B)],
 [('KNOWN_OBJECTS', 'process-wide type registry', B)], ['EventIOFile', 'SimTelFile', 'IACTFile'])
prop('C19', 'Chunked photon reading equals whole reading',
 'Reading the photon bunches of a telescope in chunks of any size delivers, concatenated, exactly the bunches and emitter records of the unchunked reading, no chunk larger than requested, also when other objects, the same object, or further chunked readings of it are read between chunks on a seekable file; on an uncompressed file a chunk is delivered without reading the file more than one further chunk (and the I/O buffer) beyond it, so memory use follows the chunk and not the block. If the file ends inside the data, every chunk delivered before is exact and EOFError is raised.',
 ['histories', 'crash_points', 'inputs'],
 'All bunch counts x chunk sizes x formats x interleaved accesses x cut positions.',
 'Tests read two chunk sizes from one file with nothing in between.',
 [IO], [('Photons.parse/parse_chunked/read_data', IO)], [('_pos', 'chunk cursor', B)], ['Photons.parse(chunksize)'])
prop('C20', 'Search helpers visit exactly the objects in the file, torn or not',
 'The search helpers deliver exactly the objects of the requested type or structure, in stored order and each once, that a complete walk over the object tree finds; the delivered objects remain readable with the right content on a seekable file; asking for the first n delivers exactly min(n, available) of them, none for n = 0. On a torn file the helpers documented to tolerate it deliver those of the surviving prefix and warn, the others raise EOFError; none ends silently.',
 ['inputs', 'crash_points', 'histories'],
 'All object trees x target types/structures x cut positions x consumption orders.',
 'The only test of these helpers needs a missing file.',
 [SU], [('find_*/yield_* helpers', SU)], [], ['eventio.search_utils'])
prop('C21', 'Cutting a file writes exactly the largest whole-object prefix that fits',
 'eventio_cut_file writes exactly the bytes of the leading complete top-level objects that fit into the requested uncompressed size, whatever the input container, compressing the output if its name asks for it; a size that is not of the documented form is refused. If the input is torn, unreadable or changes, or writing fails at any point (full disk, I/O error), it reports failure instead of success, and it never leaves an output that ends inside an object while reporting success. A file is not lost by naming it as its own output: it is cut in place, or stays as it is unless writing it fails.',
 ['inputs', 'fault_sequences', 'crash_points'],
 'All object sequences x size limits x containers x input cuts x write failures at every output byte.',
 'The only test needs a missing file and uses one size on one intact file.',
 [SC + 'cut_eventio_file.py', B], [('main', SC + 'cut_eventio_file.py')], [], ['output file', 'exit status'])
prop('C22', 'Inspection tools account for exactly the surviving objects and say if torn',
 'eventio_print_object_information counts each object of every nesting level once, and eventio_print_structure and the search walk list the objects of the file in order with their nesting, in every container. For a torn file they account for exactly the objects whose header survived and report the truncation; what is not printed because of a limit is counted ("And N more"). The metaparameter and history tools print every stored entry. A reader of their output that goes away, or an output device that fails, never makes them report success with wrong or incomplete counts.',
 ['inputs', 'crash_points', 'fault_sequences'],
 'All object trees x cut positions x containers x output failures at every write.',
 'The tests run the tools once each on intact files and only check that they do not fail.',
 [SC + 'print_object_information.py', SC + 'print_structure.py', SC + 'print_simtel_metaparams.py', SU], [('count_versions', SC + 'print_object_information.py'), ('print_structure', SC + 'print_structure.py')], [], ['stdout of the tools'])
prop('C23', "A newer producer's object versions are refused, never misread",
 'When producer and reader differ in version, that is, when an object carries a version number its decoder does not support (newer ones in particular, for every class whose decoder names the versions it supports), decoding it raises NotImplementedError and returns no values, at any level of nesting; the same holds for ADC sums and samples in a data reduction or zero suppression mode, and photoelectron sums with pixel data, that are not supported. The refusal leaves the low-level reader usable: every other object still decodes to the values written. SimTelFile and IACTFile deliver an unchanged prefix of the events and then raise NotImplementedError, or in the constructor if the object belongs to the run header.',
 ['inputs', 'configurations', 'fault_sequences'],
 'All object types x unsupported version numbers x positions in all file structures x containers x histories of the surrounding accesses.',
 'Tests check the version assertion helpers with mocks only; no file with an unsupported version is read.',
 ['src/eventio/version_handling.py', SO, IO, S], [('assert_*_version*', 'src/eventio/version_handling.py'), ('parse methods', SO)], [], ['EventIOObject.parse', 'SimTelFile', 'IACTFile'])
prop('C24', 'Every stored histogram gets one correct figure, or the tool says it failed',
 'eventio_plot_histograms saves exactly one figure per stored histogram, in stored order and under consecutive numbers, that shows its title and its stored bin contents (to plotting precision) at its stored bin edges, with every bin that has contents inside the visible range; this includes histograms without any entries. On a torn file it does so for every histogram object that was stored completely, and the truncation is reported. If the input cannot be read or a figure cannot be written completely, the tool never reports success.',
 ['inputs', 'crash_points', 'fault_sequences', 'configurations'],
 'All histogram kinds and contents x containers x input cuts and read failures x write failures at every byte of the figures.',
 'The test only checks that output files exist for one intact file, whose histograms all have entries.',
 [SC + 'plot_hists.py', HI, SU], [('main', SC + 'plot_hists.py'), ('Histograms.parse', HI), ('yield_toplevel_of_type', SU)], [], ['saved figures', 'exit status of the tool'])
prop('C25', 'Misplaced objects in a CORSIKA file never mix data of different showers',
 'If the storage of a CORSIKA/IACT file loses, repeats, exchanges or displaces whole top-level objects, or inserts foreign ones, then iteration delivers, unchanged and in order, the events of every shower whose documented object sequence (header, offsets, optional longitudinal and particle data, telescope data of each use, end block with the same event number) is intact, and ends with an error at the first shower or run structure that is not: no delivered event combines a header, telescope data or an end block of different showers, no telescope data is taken for another kind, and damage is never passed over silently. Objects of other kinds inside the telescope data of a use are left out. Damage inside the header block makes opening fail. A new iteration on a seekable file gives the same result again.',
 ['inputs', 'fault_sequences', 'configurations'],
 'All file structures x all placements of lost, repeated, exchanged, displaced or foreign objects x containers.',
 'No test reads a CORSIKA file with missing or misplaced objects.',
 [I, IO, B], [('IACTFile.__init__ (header block)', I), ('IACTFile.__iter__', I), ('check_type', 'src/eventio/exceptions.py')], [], ['IACTFile constructor and iteration'])
prop('C26', 'A damaged record is decoded to something or refused, and nothing else is harmed',
 'If payload bytes of one stored top-level object are damaged (flipped bits, zeroed, stale or random sectors, overwritten numbers, at any nesting level, its own header and all others excepted), then decoding, iterating or searching it ends within bounded time and memory with a value or an ordinary exception: the process never crashes, hangs or exhausts memory. Its header and raw payload are still delivered exactly, and decoding it again, in another order, in a fresh reader or with other contents of unused memory gives the same result. Every other object still decodes to exactly what was written, and SimTelFile and IACTFile deliver every event that holds no damaged data unchanged up to the first error they raise, never more events than stored, and never end cleanly with events missing. A record whose payload ends before the numbers it announces is refused, never completed from other memory (not claimed for the trailing text of history, metaparameter, input card and run header records).',
 ['inputs', 'fault_sequences', 'histories'],
 'All contents of a damaged payload, for every object type and version, in every position of a file.',
 'No test decodes a damaged record.',
 [B, SO, IO, V, T, HI], [('EventIOObject.parse of all classes', SO), ('compiled decoders (parse_1208, varint arrays, pixel timing lists)', V), ('parse_mc_event, read_sector_information_v1', 'src/eventio/simtel/parsing.pyx'), ('read_unsigned_varint', T)], [], ['parse() results', 'iteration over containers', 'process survival'])
prop('C27', 'A file that is still being written is read up to what is there',
 'While a producer appends to an uncompressed file, at any moment also within a read, everything any reader delivers is exactly what the finished file holds. An operation of the low-level reader on something not completely there yet raises EOFError (or ends the iteration exactly if the file ends on an object boundary at that moment), never delivers a part, does not lose its place, and delivers the right result when repeated after the missing bytes have arrived; peek announces this with a warning and None and next then reports it once. SimTelFile delivers all events complete at the end it meets, at most the last one holding only the objects complete by then, and warns unless the end is an object boundary. A new iteration over an IACTFile delivers every shower complete by then and ends with EOFError until the run end is there; opening succeeds as soon as the header block is complete and raises EOFError before.',
 ['schedules', 'histories', 'crash_points'],
 'All sizes and moments of appended pieces x all reader histories.',
 'No test reads a file that changes.',
 [B, I, S], [('EventIOFile._read_next_object/_ends_before/peek', B), ('EventIOObject.read', B), ('IACTFile.__iter__', I), ('SimTelFile._read_next_event', S)], [('_next_header_pos', 'place in the file', B)], ['EventIOFile/EventIOObject operations', 'SimTelFile and IACTFile constructors and iteration'])
# properties this technique does not decide
prop('N01', 'Integer and bit helpers decode every input value correctly',
 'The public variable-length integer and bit-field helpers decode every value of their documented range from any buffer and offset to exactly that value and report the number of bytes used.',
 ['inputs'], 'All buffers, offsets and values.',
 'Tests check a few values per width.', [V, H, T], [('varint functions', V), ('get_bits_from_word', H)], [], ['eventio.var_int', 'eventio.header', 'eventio.tools'])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl'), 'w') as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + '\n')
print(len(P))
