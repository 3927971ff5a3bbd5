"""Writes /verif/known_findings.json (findings that are recorded, and defects that were repaired)."""
import json, os, subprocess
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
FINDINGS = []
FIXED = [
    # property, words of the commit subject, what failed
    ('C01', 'zstd files with more than one frame', 'only the first frame of a multi-frame zstd file was read; the rest of the file was silently missing'),
    ('C02', 'inside the last payload', 'a file that ends inside the payload of its last object, or before a header extension, ended with a clean StopIteration'),
    ('C09', 'failed gzip process', 'a gzip helper that failed or was killed in the middle of its output looked like a clean end of file'),
    ('C05', 'at their own position', 'an object read or sought relatively used the shared file position, so reading another object in between returned misplaced bytes'),
    ('C03', 'at their own position', 'reading a torn payload returned the surviving bytes as if complete'),
    ('C04', 'contents of integer histograms', 'integer histograms could not be decoded (TypeError: counts)'),
    ('C04', 'physical addresses', 'version 0/1 telescope event headers with physical addresses could not be decoded (TypeError)'),
    ('C04', 'version 0 and 1 central events', 'version 0/1 central events could not be decoded (KeyError)'),
    ('C04', 'extra parameters of version 2 MC showers', 'version 2 MC showers could not be decoded; float extra parameters used the wrong count'),
    ('C05', 'from the start of the payload', 'seven classes decoded from the current position instead of the start of their payload, so a second decode failed or returned other values'),
]
FIXED += [
    ('C05', 'before the start of an object', 'a relative seek could move before the payload, and reading then returned bytes of the object header'),
    ('C07', 'failure met while peeking', 'a failure met while peeking was never forgotten (peek returned None for ever) and on forward-only sources the next read raised another error'),
]
FIXED += [
    ('C10', 'once the object was read', 'after a read error in the header of an object, repeating the operation skipped that object'),
    ('C08', 'pass on warnings of the gzip process', 'gzip exit status 2 (a warning, e.g. trailing garbage after intact data) was treated as a failure or lost silently'),
    ('C06', 'at an unknown position', 'after an error in the middle of a pipe read the reader kept its old position and delivered misplaced bytes'),
    ('C02', 'ends inside a frame', 'a torn zstd frame was reported as an ordinary end of data, so a tear on an object boundary was read as a clean end of file'),
]
FIXED += [
    ('C12', 'observation level particles to later', 'the observation level particles of a shower were also attached to all later showers without any'),
    ('C13', 'following calibration event is truncated', 'a file torn inside a calibration event lost the complete event before it'),
    ('C13', 'between objects of the run header', 'opening a file that ends between objects of the run header block ended with StopIteration instead of EOFError'),
    ('C16', 'forget a peeked object', 'a new iteration after an abandoned one delivered an object peeked earlier, i.e. events of the wrong shower'),
    ('C17', 'if an IACT file ends between objects', 'a CORSIKA file that ends between the objects of a shower or of its header block ended with RuntimeError/StopIteration instead of EOFError'),
    ('C09', 'whose name starts with a dash', 'a gzip file with a relative name that starts with a dash was passed to gzip as options'),
    ('C09', 'fall back to the gzip module on warnings', 'a warning of the gzip process at start-up looked like a failure, and the file was read through the other implementation'),
    ('C11', 'does not react to being terminated', 'closing waited for ever for a gzip process that does not react to SIGTERM'),
]
FIXED += [
    ('C20', 'zero subobjects', 'yield_n_subobjects(.., n=0) delivered one object'),
    ('C21', 'object that fits exactly', 'an object that exactly fills the requested size was left out'),
    ('C21', 'sizes that are not of a documented form', "sizes such as '1.5k' or '10kB' were silently read as other sizes"),
    ('C21', 'if the input changes while cutting', 'an input that shrank between measuring and copying gave a shorter output and success'),
    ('C22', 'objects that are not printed', 'the number of objects not printed was wrong by one or missing'),
    ('C22', 'history of files that contain nothing else', 'eventio_print_simtel_history failed with StopIteration on files holding only a history'),
    ('C12', 'version 0 trigger information', 'array events with version 0 trigger information failed with KeyError'),
]
FIXED += [
    ('C24', 'plot histograms without entries', 'eventio_plot_histograms failed with IndexError at a histogram without entries, and hid bins whose contents cancel along one axis'),
    ('C12', 'ignore unexpected objects among the photoelectrons', 'unexpected objects among the photoelectrons of a calibration event were announced as ignored but parsed (AttributeError, or their data replaced photoelectrons)'),
    ('C12', 'at empty calibration containers', 'an empty container of calibration photoelectrons ended the iteration as if the file was over; all later events were silently missing'),
]
FIXED += [
    ('C05', 'with any negative size', 'object.read with a negative size other than -1 returned the bytes behind the payload (the rest of the file)'),
]
FIXED += [
    ('C25', 'instead of getting those of a later shower', 'when the telescope data of a CORSIKA shower was missing, the event got the telescope data, and partly the longitudinal data, of a later shower'),
    ('C25', 'an event end block of another shower', 'when a stretch from one shower into the next was lost, one event was made of the header of one and the data and end block of the other'),
    ('C25', 'particles among the photons of a telescope', 'a particle block among the photons of a telescope was unpacked into two values taken for photons and emitters'),
]
FIXED += [
    ('C04', 'histograms with non-ASCII titles', 'a histogram title with characters of more than one byte shifted everything stored after it (wrong values or errors)'),
    ('C26', 'a damaged number of traces', 'a damaged number of traces or pixels without samples kept the decoder busy for hours'),
    ('C26', 'beyond the payload in the compiled decoders', 'photoelectrons, pixel timing, MC events and sector lists of a damaged or short record were completed from memory behind the payload'),
    ('C26', 'variable length integers that are cut off', 'a variable length integer cut off by the end of a record was decoded as a shorter one'),
]
FIXED += [
    ('C21', 'also named as the output', 'eventio_cut_file with its input as output emptied the file before reading it: the data were lost and the tool failed'),
    ('C01', 'start with a skippable frame', 'zstd files that start with a skippable frame, as pzstd writes them, were refused as not being eventio files'),
]
FIXED += [
    ('C19', 'used between two chunks', 'when the same photon block was read, parsed or read in chunks by a second reader between two chunks, wrong bunches or an error followed'),
]
log = subprocess.run(['git', '-C', '/repo', 'log', '--format=%h %s'], capture_output=True, text=True).stdout.splitlines()
out = list(FINDINGS)
for prop, words, what in FIXED:
    hits = [x for x in log if words in x]
    assert len(hits) == 1, (words, hits)
    out.append(dict(kind='fixed', property=prop, commit=hits[0].split()[0],
                    text='fixed: property=%s %s %s' % (prop, hits[0].split()[0], what)))
with open(os.path.join(V, 'known_findings.json'), 'w') as f:
    json.dump(out, f, indent=1)
    f.write('\n')
