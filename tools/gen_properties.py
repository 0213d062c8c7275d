"""Writes /verif/properties.jsonl (kept as a script so that the long texts stay editable)."""
import json, pathlib, re, sys

R = "vistautils/range.py"
S = "vistautils/span.py"
A = "vistautils/annotated_text_utils.py"
IO = "vistautils/io_utils.py"
KV = "vistautils/key_value.py"
P = "vistautils/parameters.py"
G = "vistautils/_graph.py"
PE = "vistautils/parameters_only_entrypoint.py"
LG = "vistautils/logging_utils.py"
CP = "vistautils/checkpoints.py"
IT = "vistautils/iter_utils.py"
MU = "vistautils/misc_utils.py"
CU = "vistautils/collection_utils.py"
CL = "vistautils/class_utils.py"
PC = "vistautils/preconditions.py"
MA = "vistautils/memory_amount.py"
AU = "vistautils/attrutils.py"
SC = "vistautils/scripts/"

def line_of(path, needle):
    """'file:line' of the first line containing needle, so that the anchors are never stale."""
    for n, line in enumerate(pathlib.Path("/repo", path).read_text().split("\n"), 1):
        if needle in line:
            return f"{path}:{n} ({needle.strip()})"
    raise SystemExit(f"no {needle!r} in {path}")

OUT = []

def prop(id_, title, statement, over, text, why, files, mech, observe=None, state=None):
    assert len(title) <= 80, (id_, len(title))
    anchors = {"files": files, "mechanism": [{"name": n, "where": line_of(*w)} for n, w in mech]}
    if state:
        anchors["state"] = [{"name": n, "meaning": m, "where": line_of(*w)} for n, m, w in state]
    if observe:
        anchors["observe_at"] = observe
    anchors["hook_needed"] = None
    OUT.append({"id": id_, "title": title, "statement": statement,
                "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": anchors})

prop("C01", "A range denotes exactly its set of values, and its algebra agrees with it",
     "For every totally ordered endpoint type, a range contains exactly the values lying between its bounds (respecting open, closed and unbounded ends), invalid ranges (upper end below lower end, or both ends open at the same value) and membership tests of a missing value are rejected, and the accessors, emptiness, equality and printed notation reflect the bounds. "
     "Enclosure, connectedness, intersection (the maximal range enclosed by both; rejected when the ranges are not connected), span (the minimal range enclosing both, or a whole collection) and the intersection test (true exactly for connected ranges) agree with the order of the bounds for every pair of ranges. "
     "None of these operations changes its operands.",
     ["inputs"], "all pairs of ranges of all nine kinds over any totally ordered endpoint type, and all probe values",
     "tests/test_range.py tries a few dozen integer examples per kind; the statement is over all pairs, endpoint orders and endpoint types",
     [R], [("bounds are compared as cuts", (R, "def compare_to(self")), ("containment", (R, "def __contains__(self, val")), ("intersection", (R, "def intersection(")), ("span", (R, 'def span(self, other: "Range[T]")')), ("validation of bounds", (R, "def __attrs_post_init__(self)"))],
     ["return values of the range factories, predicates and operations"])

prop("C02", "A range set is the minimal coalesced, ordered form of what was added",
     "After any sequence of additions (single ranges, iterables, other range sets), clears and copies, a range set consists of exactly the minimal collection of non-empty, pairwise disconnected ranges whose union is the union of everything added since the last clear, listed in ascending order; its span, emptiness and length agree with that list. "
     "The result does not depend on the order of additions or on whether it was made through a builder, and additions return the set itself. "
     "Immutable copies and built sets never change afterwards, however the set or builder they came from is used later.",
     ["histories", "inputs"], "all sequences of add / add-all / clear / copy / build operations with ranges of all kinds",
     "tests/test_range_set.py exercises a dozen short fixed sequences; coalescing depends on the whole history of bounds",
     [R], [("coalescing insertion", (R, 'def add(self, range_to_add')), ("removal of subsumed ranges", (R, "def _clear(")), ("snapshot", (R, "def immutable_copy(self)")), ("builder", (R, "def build(self) -> \"ImmutableRangeSet[T2]\""))],
     ["as_ranges, span, is_empty, len, returned copies after every step"])

prop("C03", "Range set queries agree with a scan of all member ranges",
     "For every range set, mutable or immutable, and every value or range asked about, each query gives the answer obtained by examining every member range in turn: containment of a value and the range containing it, enclosure of one or many ranges and the enclosing range, the ranges enclosed by a range, the ranges overlapping a range, and whether any member shares a non-empty range with it. "
     "The rightmost range not wholly above a value and the leftmost range not wholly below a value are the last, respectively first, member range which includes the value or has some part before, respectively after, it, and nothing when there is none. "
     "The deprecated names of queries answer exactly as their replacements.",
     ["inputs", "histories"], "all range sets (any size, including empty and all-covering) and all query values and ranges",
     "tests check hand-picked queries on sets of up to about seven ranges; the binary-search edge cases (probe at, just below, just above each bound, empty query ranges) are not covered",
     [R], [("lookup by lower bound", (R, "def _value_at_or_below(")), ("lookup above", (R, "def _value_at_or_above(")), ("overlap scan", (R, "def ranges_overlapping(self, rng: Range[T]) -> ImmutableSet[Range[T]]:\n".strip())), ("leftmost", (R, "def leftmost_containing_or_above(self, lower_limit"))],
     ["return values of every query"])

prop("C04", "Range map lookups agree with a scan of its key ranges",
     "A range map returns for a key value the value stored for the one key range containing it and nothing if there is none, and its remaining queries (containment, values of key ranges enclosed by a range, value of the rightmost key range not wholly above or leftmost not wholly below a value) agree with examining every entry, whatever the stored values are (including falsy ones). "
     "Its entries are exactly those it was created from, by constructor, factory or builder. "
     "Creation with key ranges that are empty, overlapping or connected is rejected rather than losing entries.",
     ["inputs"], "all collections of entries, valid and invalid, and all keys and query ranges",
     "tests cover three fixed maps; the rejection of connected keys and falsy values are sampled once or never",
     [R], [("lookup", (R, "def __getitem__(self, k: K)")), ("key validation", (R, "Some range keys are connected or overlapping")), ("enclosed values", (R, "def get_enclosed_by(self, rng: Range[K]) -> ImmutableSet[V]:")), ("builder", (R, "def put(self, key: Range[K2]"))],
     ["return values of lookups; exceptions at construction"])

prop("C05", "Equality and hashing of ranges, sets, maps and spans follow their content",
     "Two ranges, range sets, range maps or spans are equal exactly when their content is equal, regardless of how or in what order they were built and of whether a range set is mutable or immutable, and are never equal to unrelated objects. "
     "Equality is reflexive and symmetric, inequality is its negation, equal objects have equal hash codes and are interchangeable as set members and dictionary keys. "
     "Endpoint values that compare equal (for example integer, floating point and boolean one) make equal ranges with equal hash codes.",
     ["inputs", "histories"], "all pairs of objects built through different construction histories",
     "tests compare a handful of objects built the same way; the contract is over pairs of different construction histories and kinds",
     [R, S], [("range equality", (R, "def __eq__(self, other) -> bool:\n".strip())), ("range hash", (R, "return hash(self._lower_bound) + 31 * hash(self._upper_bound)")), ("range set hash", (R, "return hash(tuple(self.as_ranges()))"))],
     ["==, !=, hash, membership in sets and dictionaries"])

prop("C06", "Ranges, sets and maps of them, spans and parameters survive pickling and copying",
     "Pickling (under every protocol) and unpickling, in the same or another process, and shallow or deep copying of ranges, range sets, range maps, spans and parameters gives an object of the same kind which equals the original and answers every query exactly as the original does, including those with unbounded ends and empty ones. "
     "Copies of mutable range sets are independent of the original: changing one afterwards does not change the other.",
     ["inputs", "configurations"], "all such objects, all pickle protocols, same-process and cross-process",
     "one pickling test per class with one bounded integer object; unbounded ends, other protocols, copies and other processes are not tested",
     [R, P], [("pickle state of sets", (R, "def __getstate__(self)")), ("pickle state of maps", (R, "__getstate__/__setstate__ cannot be used")), ("identity of the unbounded ends", (R, 'return "_BELOW_ALL"'))],
     ["objects returned by pickle.loads, copy.copy and copy.deepcopy"])

prop("C07", "Span operations agree with spans as sets of character offsets",
     "A span covers exactly the offsets from its start (inclusive) to its end (exclusive): length, offset containment, span containment, overlap, precedence in both directions, intersection, clipping, conversion to a range and the minimal span enclosing several all agree with that set of offsets, and intersection or clipping yield nothing exactly when no offset is shared. "
     "Shifting moves every offset by the given amount and keeps the length. "
     "Spans which are empty or reversed or have non-integer ends are rejected, objects having a span answer as their span does, and sorting by the earliest-then-longest key puts enclosing spans before those they enclose.",
     ["inputs"], "all pairs of spans and all offsets",
     "tests/test_span.py tries about twenty pairs; boundary-touching and nested cases are off-by-one prone",
     [S], [("validation", (S, "def _validate_start(")), ("overlap", (S, "def overlaps(")), ("intersection", (S, "def intersection(")), ("clipping", (S, "def clip_to(")), ("enclosing span", (S, "def minimal_enclosing_span("))],
     ["return values and exceptions"])

prop("C08", "Span index queries return exactly the items a scan would return",
     "For any collection of items having spans, an index answers exact-match, overlap, containment-in and containing queries with exactly the items a scan over all items would select, each once (in answers which are sets, equal items count as one), regardless of the order in which items were indexed, of whether several items share a span and of how items compare to each other. "
     "An index restricted to disjoint spans answers the same queries for disjoint items, giving the single matching item or nothing where at most one is possible. "
     "Building such an index over items whose spans overlap or coincide is rejected.",
     ["inputs"], "all collections of items, with shared, nested, adjacent and overlapping spans and arbitrary item equality, and all query spans",
     "tests use three fixed item collections without shared spans or equal items",
     [S, R], [("overlapping index", (S, "class _OverLappingHasSpanIndex")), ("disjoint index", (S, "class _DisjointHasSpanIndex")), ("disjointness check", (S, "Multiple items share the same span"))],
     ["query results; exceptions at construction"])

prop("C09", "Rendering annotations never alters the text and places each tag correctly",
     "Rendering annotated text produces the original text unchanged once the inserted tags are removed, with exactly one start tag and one end tag per annotation overlapping the text, placed at the annotation's offsets (clipped to the rendered portion and relative to it when the text is part of a larger document) and nothing for annotations lying outside. "
     "When annotations nest, the tags are properly nested and never cross, including annotations with identical or adjacent spans, and attributes appear in the start tag in alphabetical order of their names. "
     "Declaring document offsets whose length differs from the text's is rejected.",
     ["inputs"], "all texts, collections of annotations in any order, and document offsets",
     "tests render six fixed examples, none with identical spans or annotations sticking out on both sides",
     [A, S], [("clip and shift", (A, "def _clip_to_offsets_and_shift(")), ("tag ordering", (A, "def _tag_sequence(")), ("attributes", (A, "def to_start_tag("))],
     ["rendered string"])

prop("C10", "What is written to a sink is what the matching source reads",
     "Text or bytes written through any character or byte sink, whether at once or incrementally, is read back unchanged through every matching source: string, buffer, file, gzipped file, file within a zip, file within a .tgz, and decoded wrappers in a given encoding (for text whose line breaks are newlines). "
     "Sources can be read again with the same result, agree with themselves about emptiness, split into lines only at newlines with the line ends removed, and a size-limited read returns the corresponding prefix. "
     "A later write replaces an earlier one, sinks create missing parent directories, discarding sinks accept everything and leave nothing behind, and several entries written to one zip file stay separately readable.",
     ["inputs", "configurations", "histories"], "all contents (any Unicode text or bytes), encodings, source/sink combinations and write sequences",
     "tests use one short ASCII content per source kind; unusual line separators, large, empty and multi-byte content are not covered",
     [IO], [("lines", (IO, "def readlines(self)")), ("zip entries", (IO, "class _ByteSourceFromPathInZipFile")), ("tgz entries", (IO, "class _FileWithinTgzCharSource")), ("gzip", (IO, "class _GZipFileSource")), ("string sink", (IO, "class StringCharSink")), ("buffer sink", (IO, "class BufferByteSink"))],
     ["values returned by sources; files on disk"])

prop("C11", "Every file opened on the caller's behalf is closed again, also on failure",
     "After an operation on a source, sink or key-value store has finished, whether it succeeded or failed at any point (missing or corrupt input, missing entry, wrong encoding, failing callback, error while writing or inside the caller's block), no file which it opened remains open. "
     "Files handed to the caller are open exactly until the caller closes them, and closing one also releases any archive it came from. "
     "Archives which the caller opened and passed in are left open.",
     ["fault_sequences", "histories", "inputs"], "all operations, with faults injected at every file-level step and callback",
     "tests run the success paths and never look at open descriptors",
     [IO, KV], [("zip source close", (IO, "def new_close(self)")), ("tgz source", (IO, 'with tarfile.open(self._tgz_path, "r:gz", encoding=self._encoding) as tgz_file')), ("zip store exit", (KV, "self._zip_file.close()  # type: ignore")), ("tar store exit", (KV, "self.inp.close()"))],
     ["every file object opened while the operation ran; open descriptors of the process"])

prop("C12", "Zip key-value stores hold exactly the mappings put into them",
     "A zip-backed key-value source whose keys are single lines of text, opened after any sequence of sink sessions (overwriting or appending, text or bytes, with custom file names for keys) provides exactly the mappings successfully put since the last overwrite, with the values unchanged: through its key listing, iteration, lookup and lookup with a default, each key once. "
     "Putting a key again, whether in the same session or when appending, is rejected and leaves the first value; putting missing or non-text, non-binary values, a key whose file name is that of the key list, or a key the list cannot hold (with a line break, not encodable), is rejected and leaves no trace among the keys. "
     "Lookup of an absent key raises a key error or gives the default, use outside the context is rejected, and zip files without a key list have unknown keys but working lookup.",
     ["histories", "inputs", "configurations"], "all sequences of sink sessions and puts (also failing ones), all keys and values, all configurations",
     "tests write two keys once and append once; longer histories, failing puts and hostile keys are not covered",
     [KV], [("duplicate detection", (KV, "Zip-backed key-value sinks do not support duplicate puts")), ("key list written", (KV, "def _write_keys_to_keys_file(")), ("key list read", (KV, "def _read_keys_from_keys_file(")), ("lookup", (KV, "def _internal_get("))],
     ["keys, items, lookups of a freshly opened source; the archive's entries"])

prop("C13", "Directory stores and document maps hold exactly what was put into them",
     "After a session of a directory-backed key-value sink, text or binary, the directory contains each key's last value in the file named by the key (creating sub-directories as needed) and an index which, when read as a document map, yields exactly the keys and values put. "
     "Opening such a sink on a directory with content, or putting a key named like the index or one the index could not hold (with tabs, line breaks, surrounding blanks), is rejected and destroys nothing. "
     "Writing a document-to-file map and reading it back gives the same identifiers with absolute paths, listed in sorted order; malformed lines, and entries which the file would alter, are rejected; sources over path mappings give every listed file's current content, a key error or the default for absent keys.",
     ["histories", "inputs"], "all sequences of puts, all legal keys and contents, all document maps",
     "tests write a single fixed two-entry store",
     [KV, IO], [("directory sink", (KV, "class _DirectoryCharKeyValueSink")), ("binary directory sink", (KV, "class _DirectoryBytesKeyValueSink")), ("map writer", (IO, "def write_doc_id_to_file_map(")), ("map reader", (IO, "def read_doc_id_to_file_map(")), ("path mapping source", (KV, "class _PathMappingCharKeyValueSource"))],
     ["directory content, index content, values of sources"])

prop("C14", "Every key-value source offers one consistent view of its data",
     "For every kind of key-value source (zip, path mapping, document map, tar, value-interpreting wrapper, or one created from parameters), iteration, key listing, lookup and defaulted lookup describe the same mapping; filtered iteration yields exactly the pairs whose keys the filter accepts, absent keys give a key error or the given default, and errors (of listed values which cannot be read, or in the caller's block) stay visible. "
     "A value-interpreting source has the wrapped source's keys and, for each, the interpretation of that key and its wrapped value, without interpreting for absent keys. "
     "Tar-backed sources yield every regular file once with its content, honouring name filters and key functions (which skip a file by giving no key at all), and sources or sinks created from parameters are those the parameters ask for (by default the document map or directory kind, of the requested text or binary value type).",
     ["inputs", "configurations"], "all sources of all kinds, all contents, keys, filters, key functions, interpretation functions and parameters",
     "tests check single examples of some kinds; agreement between access paths and between kinds is not tested",
     [KV], [("iteration from keys", (KV, "def generator_func() -> Iterator[Tuple[K, V]]")), ("interpretation", (KV, "class _InterpretedKeyValueSource")), ("tar iteration", (KV, "for member in self.inp:")), ("creation from parameters", (KV, "_BYTE_KEY_VALUE_SOURCE_SPECIAL_VALUES = {"))],
     ["items, keys, get, indexing of each source"])

prop("C15", "Splitting and joining key-value stores loses, duplicates and alters nothing",
     "Splitting a key-value store into slices writes every mapping to exactly one slice with its value unchanged, in slices whose sizes differ by at most one and which are listed in the slice list; it is deterministic, and a random seed shuffles, but only redistributes. "
     "Explicit splits contain exactly the mappings of the listed keys, and unknown keys, or keys left over when the split must be exhaustive, are reported as errors. "
     "Joining stores yields exactly the union of their mappings and rejects a key occurring twice; joining the slices of a store gives back the store.",
     ["inputs", "configurations", "histories"], "all stores, slice counts, seeds, explicit splits and joins",
     "the tests split one store in one way each; conservation is over all stores and slice counts",
     [SC + "split_key_value_store.py", SC + "join_key_value_stores.py"],
     [("even slices", (SC + "split_key_value_store.py", "def _split_into_even_slices(")), ("explicit split", (SC + "split_key_value_store.py", "def _explicit_split(")), ("join", (SC + "join_key_value_stores.py", "Duplicate key"))],
     ["content of every output store; slice list; exceptions"])

prop("C16", "The store conversion tools preserve content",
     "Downsampling a store keeps exactly the requested number of mappings (or all, if fewer) unchanged, drawn deterministically from the input and depending only on the seed; copying a directory into a store creates one mapping per file with its bytes and its file name (optionally without one extension) as the key. "
     "Converting a (compressed) tar file yields a zip, named after it with its tar extension replaced, holding every regular file with identical content except those over the size cut-off when asked to omit them, identically whether streaming or not, and leaves nothing else behind. "
     "Printing text at offsets prints exactly the characters from start to end, counted in Unicode code points.",
     ["inputs", "configurations"], "all stores, directories, archives, texts and option combinations",
     "only one of these tools has a test, with one example",
     [SC + "downsample_key_value_store.py", SC + "directory_to_key_value_store.py", SC + "tar_gz_to_zip.py", SC + "text_at_offsets.py"],
     [("downsampling", (SC + "downsample_key_value_store.py", "num_to_sample = min(")), ("directory copy", (SC + "directory_to_key_value_store.py", "sink.put(")), ("tar conversion", (SC + "tar_gz_to_zip.py", "out.writestr(member.name, data.read())")), ("text at offsets", (SC + "text_at_offsets.py", "print(text["))],
     ["output stores and files; standard output"])

prop("C17", "Parameters are an immutable tree that every access path describes identically",
     "Parameters built from nested mappings, key-value pairs with dotted names, or empty ones hold exactly the given values: dotted lookup, lookup through namespaces, membership tests, listing of qualified items, nested dictionaries, immediate sub-namespaces and namespace accessors all describe the same tree, and names containing the separator, and empty names in pairs, are rejected. "
     "Every namespace knows its full path and absent names are reported as parameter errors by required accessors and as nothing by optional ones. "
     "No operation on parameters, nor changes to the mapping they were built from, changes an existing parameters object.",
     ["inputs", "histories"], "all parameter trees and names, and sequences of operations",
     "tests look up about a dozen names in two fixed trees",
     [P], [("construction", (P, "def from_mapping(")), ("pairs", (P, "def from_key_value_pairs(")), ("dotted lookup", (P, "def _private_get(")), ("listing", (P, "def namespaced_items(")), ("nested dictionaries", (P, "def as_nested_dicts("))],
     ["return values of all accessors"])

prop("C18", "Typed parameter accessors never return a value outside their contract",
     "Each typed accessor (string, integer, positive integer, floating point, boolean, list, enumeration, namespace and their optional forms) returns the stored value when the parameter is present with the right type and satisfies the requested options, range or sign, and otherwise raises a parameter error. "
     "When the parameter is absent, the given default is returned (also falsy ones such as zero, false or an empty string), or else optional accessors return nothing and required ones raise a parameter error. "
     "Defaults never hide a present value or its errors.",
     ["inputs", "configurations"], "all stored values, accessors, valid options and ranges, defaults and absent or present names",
     "tests try one or two values per accessor; the combinations of present/absent, type, constraint and default are not covered",
     [P], [("typed lookup", (P, "    def get(\n".rstrip())), ("optional lookup", (P, "def get_optional(")), ("positive", (P, "def positive_integer(")), ("range check", (P, "Invalid value for integer parameter")), ("options", (P, "is not one of the valid options"))],
     ["return values and exception types"])

prop("C19", "Unifying parameters keeps everything, with the new values winning",
     "Unifying parameters with others (or with a plain mapping) yields exactly the parameters of both, at every nesting level, taking the new value where both have one and the old value otherwise; neither input changes. "
     "Unification with empty parameters or with itself changes nothing, and unifying three sets gives the same result however they are grouped. "
     "A name which is a value on one side and a namespace on the other is rejected, and namespaces in the result know their full path.",
     ["inputs", "histories"], "all pairs and triples of parameter trees",
     "tests unify two or three fixed trees; deep merges, conflicts at depth, falsy values and associativity are not covered",
     [P], [("unification", (P, "def unify(")), ("conflict", (P, "When unifying parameters,"))],
     ["content and prefixes of the result; exceptions"])

prop("C20", "Loading parameter files gives the file's content with the documented precedence",
     "Loading a parameter file gives exactly its content, over that of its included files (later includes over earlier ones, recursively, with relative paths resolved against the including file), over that of any context given, and the include directive itself does not appear. "
     "Files whose top level is not a mapping, that have non-string names at any level of mappings, names containing the separator, missing includes, relative includes when loaded from a string, or that include each other cyclically fail with an error naming the file. "
     "Loading is repeatable, and loading a file or its text gives the same result.",
     ["inputs", "configurations", "histories"], "all parameter files, include graphs, directory layouts and contexts",
     "tests load four fixed files with one include chain",
     [P], [("loading", (P, "def _inner_load_from_string(")), ("includes", (P, 'for included_file in raw_yaml["_includes"]')), ("key validation", (P, "def _check_all_keys_strings("))],
     ["loaded parameters; exceptions"])

prop("C21", "Interpolation replaces every reference, independent of order, or fails",
     "Loading replaces every reference to a parameter within a text value by that parameter's fully interpolated value, looked up by qualified name first in the file itself, then in included files and context, then in the environment; a value consisting of just one reference takes the referenced value whatever its type or truth value, including lists and whole namespaces. "
     "The result does not depend on the order in which parameters are written or on chains, repetition or nesting of references, and text which is not a reference is unchanged. "
     "Undefined references, references embedding non-text values in text, and cyclic references fail with an error; environment variables never become parameters, and can be switched off.",
     ["inputs", "configurations"], "all acyclic and cyclic reference graphs, orders, nestings, contexts and environments",
     "tests interpolate a fixed set of examples; the topological order makes correctness depend on the reference graph and writing order",
     [P, G], [("interpolation", (P, "def _interpolate(")), ("ordering", (G, "def topological_sort(")), ("environment", (P, "for k, v in os.environ.items()"))],
     ["loaded parameters; exceptions"])

prop("C22", "Parameters written as YAML load back unchanged",
     "Writing parameters (any nesting of namespaces with text, integer, floating point, boolean and list values, in any order) to a file or sink and loading the result gives equal parameters in the same order, as does loading their text form, for every text including ones that look like other YAML syntax, as long as they contain no reference syntax. "
     "File system paths are written as text, byte strings and unsupported objects are rejected, and writing never changes the parameters.",
     ["inputs"], "all parameter trees with representable values",
     "one fixed tree is written and compared in tests",
     [P], [("writer", (P, "class YAMLParametersWriter")), ("canonicalisation", (P, "def _preprocess_dicts(")), ("text form", (P, "def __str__(self)"))],
     ["parameters loaded from what was written"])

prop("C23", "File system parameters do exactly what their accessor promises and nothing else",
     "Accessors for creatable, creatable empty and existing files and directories return the absolute, resolved path named by the parameter; creatable ones create exactly the missing directories, existing ones and all failing ones change nothing, and optional forms return nothing without side effects when the parameter is absent. "
     "A missing or wrong-kind target of the accessors for existing ones, and a wrong-kind or non-empty target of those for empty directories, is rejected with a parameter error; impossible creatable targets fail. "
     "Content is deleted only from the named directory itself, only when deletion was explicitly requested, and never through symbolic links inside it.",
     ["inputs", "configurations", "histories"], "all accessors on all file system states (absent, file, empty or full directory, symbolic links, nested missing parents, relative paths)",
     "tests check success and one failure per accessor; nobody checks what else changed on disk",
     [P, IO], [("empty directory", (P, "def creatable_empty_directory(")), ("deletion", (P, "shutil.rmtree(str(ret))")), ("existing file", (P, "def existing_file(")), ("emptiness", (IO, "def is_empty_directory("))],
     ["returned paths, exceptions, full snapshot of the scratch tree before and after"])

prop("C24", "Objects created from parameters are the ones the parameters specify",
     "Creating an object from parameters evaluates the named value expression, or calls the named factory (its creation method with the namespace if it has one, else its constructor, or the callable with the namespace), honouring imports, context, fully qualified names and special values or factories, and otherwise uses the default value, then the default factory with the namespace at its proper path. "
     "A result of the wrong type, both a value and a factory, nothing specified without default, a non-callable factory or a failing expression are errors and never silently replaced by the default. "
     "Evaluation never changes the context given by the caller.",
     ["inputs", "configurations"], "all combinations of plain values, namespaces, factories, special cases, defaults, imports, contexts and expected types",
     "tests cover about fifteen of the combinations, one example each",
     [P, MU], [("creation", (P, "def object_from_parameters(")), ("evaluation", (P, "    def evaluate(\n".rstrip())), ("expression evaluation", (MU, "def eval_in_context_of_modules("))],
     ["returned object, arguments received by factories, context before and after, exceptions"])

prop("C25", "Path lists, path maps and line sets are read completely and in order",
     "A path list given directly or in a file yields exactly the listed paths in order (ignoring blank and comment lines in files), and a path map file yields exactly its key-path pairs in order, each resolved against the given base if any; malformed map lines are rejected. "
     "The set of lines of a file has exactly its distinct non-empty lines in file order, broken only at newlines. "
     "A pickled object loads as an equal object; missing files are parameter errors.",
     ["inputs", "configurations"], "all files and lists (comments, blanks, whitespace, duplicates, Unicode) and base directories",
     "one file with three lines is tested per accessor",
     [P, IO], [("path list", (P, "def path_list_from_file(")), ("path map", (P, "def path_map_from_file(")), ("line set", (IO, "def file_lines_to_set(")), ("pickled object", (P, "def pickled_object_from_file("))],
     ["returned sequences and mappings; exceptions"])

prop("C26", "The parameters-only entry point runs the program on the effective parameters",
     "The entry point calls the program exactly once with the parameters from the given file or those specified by the caller, overridden by each name-value pair given on the command line (later pairs winning, dotted names reaching into namespaces, everything else unchanged). "
     "When parameters cannot be loaded, arguments are wrong or the logging level is invalid, the program is not run and the failure is visible to the caller, as are errors of the program itself. "
     "The root logging level is the one the parameters specify (INFO by default), messages at or above it (and no others) are shown on standard output, and a given logging configuration file is used instead.",
     ["inputs", "configurations"], "all parameter files, override sequences, argument lists and logging parameters",
     "two fixed argument lists are tested; override precedence and failures are not",
     [PE, LG, P], [("argument handling", (PE, "def _real_parameters_only_entry_point(")), ("overrides", (PE, "params.from_key_value_pairs(parsed_args.p)")), ("logging", (LG, "def _config_logging_from_params("))],
     ["calls of the program and its argument; exit status; root logger; standard output"])

prop("C27", "Checkpoints remember exactly what was set since the last reset",
     "A checkpoint store contains a name exactly if that name was set since the last reset, over any sequence of setting, asking and resetting, also when seen through other stores on the same directory, by later processes, or after the process setting them is killed. "
     "Setting twice is harmless, resetting removes all checkpoints and leaves the store usable, nothing outside the directory is touched, creating a store on an existing directory keeps its checkpoints, and non-text names are rejected.",
     ["histories", "crash_points", "inputs"], "all sequences of operations on one or more stores sharing directories, with process ends in between",
     "tests set one checkpoint and reset once",
     [CP], [("set", (CP, ".touch(exist_ok=True)")), ("ask", (CP, "def __contains__(")), ("reset", (CP, "def reset_all(self) -> None:\n        shutil".split("\n")[0])), ("open", (CP, "directory.mkdir(parents=True, exist_ok=True)"))],
     ["answers, directory content"])

prop("C28", "Iteration helpers give exactly the specified elements, reading only as needed",
     "Dropping, windowing (complete or with partial windows at the end), pairwise tiling, flattening, leaving out missing elements and getting the only element yield exactly the elements of their specification, in order, for every input length and size, without altering elements or depending on how they compare; illegal sizes and collections not having exactly one element are rejected. "
     "Given an iterator they consume it lazily, reading no further than needed for what was asked of them; given a re-iterable collection they can be iterated again with the same result.",
     ["inputs", "histories"], "all element sequences (any objects, including None, falsy and oddly comparing ones), sizes, iterator and collection inputs, and partial consumption",
     "tests use short integer ranges and do not watch how much is consumed",
     [IT, "vistautils/iterutils.py", CU, MU], [("dropping", (IT, "def drop(it, num_to_skip: int)")), ("only element", (IT, "def only(")), ("complete windows", (IT, "def _complete_windows(")), ("partial windows", (IT, "def _possibly_incomplete_windows(")), ("tiling", ("vistautils/iterutils.py", "def tile_with_pairs(")), ("single element of a collection", (CU, "def get_only(")), ("flattening", (MU, "def flatten_once_to_list("))],
     ["yielded elements and the log of reads from the input iterator"])

prop("C29", "Argument checks and small value types accept and reject just as documented",
     "Each argument check accepts exactly the values satisfying it, returning its argument where it promises to, and raises its documented kind of error with the given message otherwise, also for falsy values and values with unusual comparison or boolean behaviour. "
     "Memory amounts parse exactly as an integer followed by a unit, in either case and with optional B, rejecting amounts below one; identified and scored items reject missing items, empty or non-text identifiers and non-float scores. "
     "Abbreviated list printing shows all or the first items with the count of the rest, removing an extension removes exactly the last, qualified names resolve back to their class or module, and attribute helpers apply their documented defaults, converters and validators.",
     ["inputs"], "all argument values, classes, memory strings, lists, limits, names and attribute options",
     "tests try one accepted and one rejected example for some of them",
     [PC, MA, MU, CL, AU], [("checks", (PC, "def check_isinstance(")), ("optional type check", (PC, "def check_opt_isinstance(")), ("memory amounts", (MA, "_PARSE_PATTERN")), ("abbreviated lists", (MU, "def str_list_limited(")), ("extension", (MU, "def strip_extension(")), ("qualified names", (CL, "def fully_qualified_name(")), ("attribute helpers", (AU, "def attrib_opt_immutable("))],
     ["return values and exceptions"])

path = pathlib.Path(__file__).resolve().parent.parent / "properties.jsonl"
path.write_text("".join(json.dumps(p) + "\n" for p in OUT))
for p in OUT:
    n = len(re.findall(r"[.!?](?= [A-Z]|$)", p["statement"]))
    if n > 3: print(p["id"], "sentences", n)
print(len(OUT))
