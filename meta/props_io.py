IO='rust/jstprove_io/src/'
PROPS=[
dict(id='C01',crate='io',title='An artifact read back equals the value that was saved',
 statement='Saving any serializable value as an artifact, compressed or not, to memory or to a file, and reading it back yields an equal value. The same holds for the two legacy encodings (bare MessagePack and bare zstd-compressed MessagePack) the reader promises to accept, whatever the size of the artifact, and a save over an existing file leaves only the new value.',
 over=['inputs','histories'],forall='every value shape and encoded size, with and without compression, memory or file, current and legacy encodings, and every history of overwrites',
 why='The 21 unit tests use a handful of small fixed structs; artifacts below the header size, sizes at I/O buffer and zstd block boundaries and mixed legacy encodings are never sampled (two real defects were found there).',
 files=[IO+'lib.rs',IO+'envelope.rs',IO+'compress.rs'],
 mech=[('serialize_to_bytes/serialize_to_file','rust/jstprove_io/src/lib.rs'),('deserialize_from_bytes/deserialize_from_file','rust/jstprove_io/src/lib.rs'),('detect_format','rust/jstprove_io/src/envelope.rs')],
 observe=['deserialize_from_bytes','deserialize_from_file'],
 tech='property-based round trip over generated records, sizes, encodings and overwrite histories',
 note='Random search with shrinking; oracle is structural equality (floats by bit pattern). Trusts rmp-serde/zstd/crc32c as libraries.'),
dict(id='C02',crate='io',title='Artifacts have the documented envelope layout and foreign ones are readable',
 statement='Every written artifact starts with the documented header (magic, version, flags, payload length, CRC-32C of the stored payload) followed by exactly that payload, compressed exactly when requested. Any byte string laid out this way by another implementation is read as the value it carries.',
 over=['inputs'],forall='every record, size, compression choice, and independently produced envelope',
 why='Tests round-trip through the same code on both sides, so a symmetric layout change that breaks every stored artifact and every other implementation passes them.',
 files=[IO+'envelope.rs',IO+'lib.rs'],
 mech=[('write_envelope','rust/jstprove_io/src/envelope.rs'),('parse_header','rust/jstprove_io/src/envelope.rs')],
 observe=['bytes of the artifact','EnvelopeHeader'],
 tech='differential property testing against an independent envelope encoder/decoder',
 note='Oracle is a second implementation of the documented layout inside the harness, with its own bitwise CRC-32C.'),
dict(id='C03',crate='io',title='Damaged artifacts are rejected, never silently misread',
 statement='An artifact that was truncated or altered after it was written is refused with an error, or reads as exactly the original value; it never yields a different value and never crashes the reader. Reading the same bytes from memory and from a file gives the same outcome.',
 over=['inputs','fault_sequences'],forall='every record and every truncation, bit flip, byte burst, header rewrite or splice of its stored form, and arbitrary garbage files',
 why='Tests flip a byte or two of one artifact; whether every position of header and payload is covered, in both readers and both compression modes, is a universally quantified claim.',
 files=[IO+'envelope.rs',IO+'lib.rs'],
 mech=[('verify_crc','rust/jstprove_io/src/envelope.rs'),('parse_header','rust/jstprove_io/src/envelope.rs'),('ExactRead/CRC streaming in deserialize_from_file','rust/jstprove_io/src/lib.rs')],
 observe=['deserialize_from_bytes','deserialize_from_file'],level='fault_enumeration',
 tech='fault-injection property testing: random damage plus exhaustive single-bit/cut enumeration of small artifacts',
 note='Single-bit flips and truncations of small artifacts are enumerated completely; larger damage is sampled.'),
dict(id='C04',crate='io',title='A circuit bundle returns exactly the blobs and metadata stored in it',
 statement='A bundle written with any circuit, witness solver, optional verification key, metadata and version, compressed or not, is read back by every reader (whole, circuit only, key only, metadata only) as exactly the stored bytes and values. A verifier can read the key without the other blobs, a missing or undecodable part is an error of the readers that need it, and manifests written before versions existed stay readable.',
 over=['inputs','configurations','fault_sequences'],forall='every combination of blobs (including blobs that look like compressed data), metadata, version, compression, and every missing or damaged member',
 why='Tests store one or two fixed byte strings; blobs that themselves begin with the compression magic were silently decoded into something else (a real defect).',
 files=[IO+'bundle.rs'],
 mech=[('write_bundle_with_vk','rust/jstprove_io/src/bundle.rs'),('read_bundle/read_circuit_blob/read_vk_only/read_bundle_metadata','rust/jstprove_io/src/bundle.rs')],
 observe=['read_bundle','read_circuit_blob','read_vk_only','bundle_has_vk','read_bundle_metadata'],
 tech='model-based property testing of bundle writers and readers',
 note='The model is the in-memory bundle; every reader is compared with it.'),
dict(id='C05',crate='io',title='A failed bundle write reports the error and leaves nothing behind',
 statement='Writing a bundle either succeeds completely or returns an error, leaves no partial bundle at the target, and a later write to the same place succeeds. A target that already exists is never altered by a write that fails.',
 over=['crash_points','fault_sequences','inputs'],forall='every bundle and every point at which the operating system refuses a write, every refusal by metadata serialization, and every kind of pre-existing target',
 why='No test injects a write failure; the partial file of a failed write was left behind and compressed streams swallowed the final error (two real defects).',
 files=[IO+'bundle.rs',IO+'compress.rs'],
 mech=[('write_bundle_with_vk cleanup','rust/jstprove_io/src/bundle.rs'),('MaybeCompressed::finish','rust/jstprove_io/src/compress.rs')],
 observe=['return value of write_bundle_with_vk','directory contents'],level='fault_enumeration',
 tech='fault-injection property testing (file-size limits at every byte, refusing serializers, occupied targets)',
 note='Faults are injected with RLIMIT_FSIZE in the check process; kill -9 in the middle is out of scope.'),
dict(id='C06',crate='io',title='Compressed streams and MessagePack pipes carry data unchanged',
 statement='Bytes written through the byte helpers, the streaming compressor (any chunking, any flushes) or the stdin/stdout MessagePack pipe are read back unchanged, plain data is passed through untouched, truncated frames are refused, and a stream that could not be stored completely reports an error.',
 over=['inputs','schedules','fault_sequences'],forall='every payload, write chunking, read chunking, flush schedule, short-read schedule and storage limit',
 why='Tests write one buffer in one call and never a short read, a flush between chunks or a full disk.',
 files=[IO+'compress.rs',IO+'lib.rs'],
 mech=[('compressed_writer/auto_reader','rust/jstprove_io/src/compress.rs'),('read_msgpack_reader/write_msgpack_stdout','rust/jstprove_io/src/lib.rs')],
 observe=['bytes read back','io::Result of finish'],
 tech='property-based round trips over chunk/flush/short-read schedules and injected write limits',
 note='Random schedules with shrinking; pipe sub-check runs the real stdin/stdout functions in a child process.'),
]
