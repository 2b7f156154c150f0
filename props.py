"""Which contract units and which generated cases decide each property."""

UNITS = {
    "boundary": {"rlimit": 120},
    "field": {"rlimit": 60},
    "entry": {"rlimit": 60, "uses": ["boundary", "field"]},
    "round": {"rlimit": 120, "uses": ["boundary", "field", "entry"]},
    "rand": {"rlimit": 20},
    "client": {"rlimit": 30, "uses": ["rand"]},
    "lazy": {"rlimit": 90, "uses": ["rand"]},
    "mock": {"rlimit": 20},
    "hyperc": {"rlimit": 60, "uses": ["rand", "lazy"]},
    "save": {"rlimit": 60, "uses": ["rand"]},
    "http": {"rlimit": 60, "uses": ["boundary", "field", "entry"]},
    "entries": {"rlimit": 90, "uses": ["boundary", "field", "entry", "save"]},
    "iron": {"rlimit": 90, "uses": ["boundary", "field", "entry", "save", "entries", "http"]},
}

BUF = "buf_redux::BufReader, twoway::find_bytes, safemem::prepend and slice operations behave as their stand-in contracts in contracts/buf_io.rs say"
READ = "the body source obeys the Read contract and its first Ok(0) is its end"

WRITE = "sinks obey the Write contract; io::copy, write! and format! behave as their stand-in contracts in contracts/client_io.rs say (write! and format! as one write per literal token and argument)"
HYPER = "hyper's client (Request, RequestBuilder, Body, headers) behaves as its stand-in contracts in contracts/hyper_types.rs and hyperc_fns.rs say"
FILES = "File::open/metadata and mime_guess behave as their stand-in contracts say; a file does not change while it is sent"
RAND = "rand's sampling and the iterator adaptors over it behave as their stand-in contracts in contracts/rand.rs say; ASCII text has one byte per character in UTF-8"

TEXT = "str methods (find, trim, starts_with, parse, from_utf8), httparse and mime behave as their stand-in contracts in contracts/text_io.rs and field_fns.rs say"

PROPS = {
    "C01": {"units": ["boundary", "field", "entry"], "assumptions": [BUF, READ, TEXT],
            "note": "Proved for all bodies, splittings and read sizes: Read/BufRead of MultipartData yield exactly the data before the next delimiter. Assumed: stand-in contracts of buf_redux, twoway, safemem, httparse; machine code equals the extracted text."},
    "C02": {"units": ["boundary", "field", "entry"], "assumptions": [BUF, READ, TEXT],
            "note": "Proved for all bodies: each entry API skips to and checks the next delimiter, reads the headers right behind it, reports errors for damaged ones, the end state is final, and foreach_entry gives every entry to its closure. Assumed: stand-in contracts of buf_redux, twoway, safemem, httparse."},
    "C03": {"units": ["boundary", "field", "entry"], "assumptions": [BUF, READ, TEXT],
            "note": "Proved for all bodies: no panic (indices, arithmetic, unwraps), termination of every loop, and yielded data is a contiguous delimiter-free part of the body, in the boundary reader, header parser and entry readers. Boundaries longer than 1018 bytes, and saving, are covered by generated cases only. Assumed: stand-in contracts of the dependencies."},
    "C04": {"units": ["boundary", "field", "entry"], "functions": {"boundary": [], "entry": [r"MultipartField::is_text", r"trait PrivReadEntry::read_headers"]}, "assumptions": [TEXT, "a BufRead shows a growing prefix of its unread data, as contracts/field_fns.rs says (for the boundary reader: proved in unit entry)"],
            "note": "Proved for all header sections: name, filename and content type are those of the Content-Disposition and Content-Type values by the declarative grammar in contracts/field_fns.rs; an error otherwise. Assumed: stand-in contracts of httparse, mime and str methods."},
    "C08": {"units": ["rand", "client", "lazy", "hyperc", "boundary", "field", "entry", "round"], "features": "client-http", "assumptions": [BUF, READ, TEXT, WRITE, FILES, RAND, HYPER, "httparse accepts `key: value` lines of printable text followed by a blank line, and reports Partial for every proper prefix (axiom httparse_reads)"],
            "note": "Proved: theorem over the contracts of the clients (what they write) and of the server (what an entry is): reading a written body gives the fields, exactly, in order, then the end. Assumed: stand-in contracts of the dependencies, incl. httparse on well-formed lines."},
    "C16": {"units": ["boundary", "field", "entry"], "assumptions": [BUF, READ, TEXT],
            "note": "Proved: an error of the source is passed on and leaves the unread body unchanged. Assumed: stand-in contracts of buf_redux."},
    "C05": {"units": ["rand", "client", "lazy", "hyperc"], "functions": {"lazy": [], "hyperc": [r"multipart_mime", r"content_type", r".* for Request::.*"]}, "features": "client-http", "assumptions": [WRITE, FILES, RAND, HYPER],
            "note": "Proved for all fields and sinks: the bytes written by write_text/write_file/write_stream/finish are exactly the framed parts in order, under the boundary given to the request (hyper's: in its Content-Type). Assumed: stand-in contracts of hyper, Write/io::copy/format macros, files, mime_guess, rand."},
    "C06": {"units": ["rand", "lazy"], "functions": {"rand": []}, "assumptions": [WRITE, FILES, RAND, "the body is shorter than 2^64 bytes"],
            "note": "Proved for all fields and read sizes: reading a prepared request yields its one body, each field once, errors lose nothing. Assumed: stand-in contracts of Cursor, Vec, files, format macros; boxed readers obey the Read contract."},
    "C07": {"units": ["rand", "client", "lazy", "hyperc"], "functions": {"rand": []}, "features": "client-http", "assumptions": [WRITE, FILES, RAND, HYPER, "the body is shorter than 2^64 bytes"],
            "note": "Proved: the length given to apply_headers by the sized and the lazy client is the length of the body written; none iff a stream field is there; hyper's requests announce it. Assumed: stand-in contracts of hyper; file length from metadata is the length of its content."},
    "C17": {"units": ["rand", "client", "lazy", "hyperc"], "functions": {"rand": []}, "features": "client-http", "assumptions": [WRITE, FILES, RAND, HYPER],
            "note": "Proved: Ok from send implies that the complete body was written to the stream of a request whose headers were set once before; errors of files name the field; a hyper response answers a POST of the whole body. Assumed: stand-in contracts of hyper; a sink that fails reports it by Err."},
    "C18": {"units": ["mock"], "assumptions": ["gen_range returns a number of the range it is given", "Vec and slices as Read and Write behave as their stand-in contracts say"],
            "note": "Proved for all writes and reads: HttpBuffer, ServerRequest and StdoutTee carry exactly the given bytes. Assumed: stand-in contracts of Vec/slice io, stdout, rand."},
}

DISK = "OpenOptions::open with create_new makes a new file or fails, what is written to a file is its content, and fs::create_dir_all, tempfile and env::temp_dir behave as their stand-in contracts in contracts/save_io.rs say"
SIZES = "a body and a field are shorter than 2^64 bytes, and a source does not report Interrupted for ever"
MAPS = "HashMap and Arc behave as their stand-in contracts in contracts/entries_fns.rs say"

# the reader contracts are used by the save contracts; whether they hold is decided by C01, C02 and C16
NONE = {"rand": [], "boundary": [], "field": [], "entry": []}
READER = ["boundary", "field", "entry"]
OTHER = r"(SaveDir::|AsRef|PartialReason::|create_dir_all|rand_filename)"
SET = r"SaveBuilder::(size_limit|memory_threshold|try_text|force_text|ignore_text|mod_open_opts|new)"
COPY = r"try_read_buf|try_write_all|try_copy_limited(\{0\})?|SaveBuilder::(read_mem|save_mem|save_text|write_limited)(\{\d\})?|SaveBuilder::(write_to|with_path)|SaveBuilder<&>::.*"
CLOSURE = r"^[^:]*(::[a-z_]*)?\{\d\}: |"
LIMITS = r"limit|SizeLimit|stored_size"

PROPS.update({
    "C09": {"units": READER + ["rand", "save", "entries"],
            "functions": dict(NONE, save=[COPY, r"SavedData::.*", r"SaveResult::.*", r".*DataReader::.*", r"From<.*"], entries=[r"SaveBuilder::with_entries.*", r"Entries::push_field", r"PartialEntries::.*", r"EntriesSaveResult::.*", r"Into<.*"]),
            "skip": {"save": r"limit|SizeLimit|stored_size|stored_text|stored_place|Utf8Error|parent_made|fresh", "entries": r"\{0\}: .*(stored_size|stored_text|stored_place)"},
            "assumptions": [BUF, READ, TEXT, DISK, SIZES, MAPS],
            "note": "Proved for all data, settings and faults: a complete save holds exactly the data (memory, file, writer), a partial one exactly the bytes taken; a request save is a run of complete saves of the fields in order. Assumed: stand-in contracts of std fs, HashMap, tempfile and of the reader's dependencies."},
    "C10": {"units": READER + ["rand", "save", "entries"],
            "functions": dict(NONE, save=[COPY, r"SaveBuilder::(size_limit|memory_threshold|new)", r"SavedData::(size|is_memory|add_size)"], entries=[r"SaveBuilder::with_entries\{0\}"]),
            "keep": {"save": CLOSURE + LIMITS + r"|SavedData::|only\(", "entries": r"stored_size"},
            "assumptions": [BUF, READ, TEXT, DISK, SIZES],
            "note": "Proved for all data, limits and thresholds: what is stored where, and which stops are reported as the size limit. Assumed: stand-in contracts of std fs and of the reader's dependencies."},
    "C11": {"units": READER + ["rand", "save", "entries"],
            "functions": dict(NONE, save=[COPY, r"SaveBuilder::(try_text|force_text|ignore_text|new)"], entries=[r"SaveBuilder::with_entries\{0\}"]),
            "keep": {"save": CLOSURE + r"stored_text|Utf8|only\(|SaveBuilder::save_text", "entries": r"stored_text"},
            "assumptions": [BUF, READ, TEXT, DISK, SIZES, "UTF-8 facts (concatenation, dead prefixes, empty string valid) as axioms in contracts/save_io.rs"],
            "note": "Proved for all data, splittings and policies: text only if allowed, bytes or a UTF-8 error only for data that is not UTF-8. Assumed: from_utf8's stand-in contract and the axioms on UTF-8 in contracts/save_io.rs."},
    "C12": {"units": READER + ["rand", "save", "entries"],
            "functions": dict(NONE, save=[], entries=[r"(?!SaveBuilder::with_entries\{0\}).*"]),
            "assumptions": [BUF, READ, TEXT, DISK, SIZES, MAPS],
            "note": "Proved for all requests: counts, grouping, order, the stop at the limit with the next field unread, resumption (theorems saves_join, saves_counted, stopped_at_limit). Assumed: stand-in contracts of HashMap, std fs and of the reader's dependencies."},
    "C13": {"units": READER + ["rand", "save", "entries"],
            "functions": dict(NONE, rand=[".*"], save=[r"SaveBuilder::(new|mod_open_opts|with_path)", r"SaveBuilder<&>::.*", "rand_filename", "create_dir_all"], entries=[r"SaveBuilder::with_entries\{0\}", r"SaveBuilder<_>::.*", r"SaveBuilder::(temp_with_prefix|with_temp_dir)"]),
            "keep": {"save": r"SaveBuilder::(new|mod_open_opts)|rand_filename|create_dir_all|stored_place"},
            "skip": {"entries": r"\{0\}: .*(stored_bytes|stored_size|stored_text)"},
            "assumptions": [DISK, RAND, "what a file name is joined to is the path Path::join says; a client's data cannot influence the random names"],
            "note": "Proved: the file holding the data has the asked path (or directory plus 12 generated alphanumeric characters) and was opened with the configured options, create_new by default. Assumed: stand-in contracts of std fs, rand; file system behaviour is checked, bounded, by generated cases."},
    "C19": {"units": READER + ["rand", "save", "entries"],
            "functions": dict(NONE, save=[r"SaveDir::.*", r"AsRef.*"], entries=[r"SaveBuilder<_>::.*", r"SaveBuilder::(temp_with_prefix|with_temp_dir)", r"Entries::new", r"PartialEntries::.*", r"Into<.*"]),
            "assumptions": ["tempfile::TempDir removes its directory with all contents when it is dropped, close() removes it, into_path() keeps it; fs::remove_dir_all removes a directory and its contents"],
            "note": "Proved: SaveDir's conversions keep or remove exactly the directory they should, and entries and partial results own the TempDir. That a dropped TempDir removes its directory is tempfile's contract (assumed; checked, bounded, by generated cases)."},
})
PROPS["C03"]["units"] = READER + ["rand", "save", "entries"]
PROPS["C03"]["keep"] = {"rand": r"$^", "save": r"$^", "entries": r"$^"}
PROPS["C03"]["assumptions"] = [BUF, READ, TEXT, DISK, SIZES, MAPS]
PROPS["C03"]["note"] = "Proved for all bodies: no panic (indices, arithmetic, unwraps), termination of every loop, in the boundary reader, header parser, entry readers and saving functions; yielded data is a contiguous delimiter-free part of the body. Boundaries longer than 1018 bytes are covered by generated cases only. Assumed: stand-in contracts of the dependencies."
PROPS["C16"]["units"] = READER + ["rand", "save"]
PROPS["C16"]["functions"] = {"rand": [], "save": [COPY]}
PROPS["C16"]["skip"] = {"save": r"limit|SizeLimit|stored_size|stored_text|stored_place|Utf8Error|parent_made|fresh"}
PROPS["C16"]["assumptions"] = [BUF, READ, TEXT, DISK, SIZES]
PROPS["C16"]["note"] = "Proved: an error of the source is passed on and leaves the unread body unchanged; saving retries interrupted reads and writes and reports other errors with exactly what was taken so far. Assumed: stand-in contracts of buf_redux and std fs."

HTTP = "hyper, iron, nickel and tiny_http requests, headers and mime 0.2 types behave as their stand-in contracts in contracts/http_types.rs and http_fns.rs say (a parsed Content-Type names known parts by their variants)"
PROPS["C14"] = {"units": READER + ["http"], "functions": NONE, "features": "http", "assumptions": [BUF, READ, TEXT, HTTP],
    "note": "Proved for all methods and headers, per integration: multipart_boundary gives the boundary parameter of a POST multipart/form-data request and None otherwise; Switch and multipart_body hand over exactly by it. Assumed: stand-in contracts of hyper, iron, nickel, tiny_http, mime; generated cases cover these, bounded."}

PROPS["C15"] = {"units": READER + ["rand", "save", "entries", "http", "iron"], "features": "http",
    "functions": dict(NONE, save=[], entries=[], http=[r".*IronRequest.*"]),
    "assumptions": [BUF, READ, TEXT, DISK, SIZES, MAPS, HTTP, "iron's TypeMap::insert and IronError::new behave as their stand-in contracts in contracts/iron_fns.rs say"],
    "note": "Proved for all bodies, limits and behaviours: strict saves everything or fails with the error naming the limit and stores nothing; lenient keeps every field, cutting only at the size limit, and terminates; the directory is in the configured place. Assumed: stand-in contracts of iron, std fs, tempfile, HashMap and the reader's dependencies."}

PENDING = {}
