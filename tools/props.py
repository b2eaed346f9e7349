AI = "abstract interpretation of the SSA form (all paths, callees inlined, symbolic pre-states)"
TRUST = "Trusted: golang.org/x/tools SSA construction, the checker's abstract transfer functions and its models of the standard library. Undecided counts as failure."

PROPS = [
 dict(id="C01", title="References to a reset document or to ids that do not exist are inert",
  statement="Any operation on a node reference whose document was reset, closed or pooled since, whose id does not exist in the document, or which has no document, changes nothing, never panics, never calls user code, and returns the empty value of its type (for error results: a non-nil error; for node and iterator results: one that is itself inert).",
  over=["inputs", "histories"], quant="every exported operation of Node, every stale/nonexistent/zero reference, every argument",
  why="The tests exercise a handful of reset-then-use cases for some accessors; they cannot enumerate all operations times all stale states.",
  files=["node.go", "document.go"], mech=[("revision and bounds check before access", "node.go Node.get, Node.Document"), ("id bounds check", "document.go Document.get")],
  observe=["return values of Node methods", "the document after the call"],
  technique="abstract interpretation of every exported Node method from symbolic non-live receivers (effect and result obligations)",
  note="Decides the whole statement for all inputs under the model's assumptions. " + TRUST),
 dict(id="C02", title="Reading a document never changes it",
  statement="Accessors, lookups, conversions, iteration and serialisation leave every document, node and string they can reach unchanged; only the caller's destination buffer (past its length), pooled scratch buffers and the iterator itself are written.",
  over=["inputs", "schedules"], quant="every read operation, every live document and argument; concurrent readers of one document",
  why="Tests compare a few outputs; a write to shared state through an accessor is invisible unless the exact later read is made, or two readers race.",
  files=["node.go", "document.go", "strjson/unescape.go", "numjson/numjson.go"], mech=[("read paths only load", "document.go lookup, toInterface, appendJSON; node.go accessors")],
  observe=["document contents", "race-freedom of concurrent readers"],
  technique="abstract-interpretation effect analysis (mod/ref) over all read operations",
  note="Decides the statement for the listed read operations (Node, Document, IterV); recursive calls by induction. " + TRUST),

 dict(id="C03", title="Parse accepts exactly one JSON value and returns what follows it",
  statement="Document.Parse succeeds exactly when the input starts (after white space) with a JSON value: an object or array with the punctuation of RFC 8259 and nothing else, a string (any bytes up to the first unescaped quote), true, false, null, or a number token (a run of bytes starting with '-' or a digit and ending before white space, ',', ']', '}' or the end of input; its digits are not validated). On success the returned tail is exactly the input after the last byte of that value; otherwise the returned node is the zero Node.",
  over=["inputs"], quant="every input string of any length and nesting",
  why="The tests parse a few dozen documents; escapes before a quote, empty containers, trailing commas, white space at every position and values that end at the end of the input combine without bound.",
  files=["parser.go", "bytemaps.go", "types.go"], mech=[("recursive descent", "parser.go parseValue, parseArray, parseObject"), ("character classes", "bytemaps.go")],
  observe=["error nil or not", "the tail returned"],
  technique="abstract interpretation of the product of the parser with a reference grammar machine (inductive contract for the recursion, inferred loop invariants, unbounded inputs)",
  note="Decides the whole statement for all inputs (partial correctness: for calls that return). " + TRUST),
 dict(id="C04", title="Incomplete input gives UnexpectedEOF, malformed input a located ParseError",
  statement="When Parse fails, the error is UnexpectedEOF exactly when the input ended before the grammar was violated (a true/false/null token with fewer bytes left than the literal counts as ended), and then the tail returned is the whole input so that the caller can append data and retry. Otherwise it is a *ParseError whose Pos is the offset of the first byte that no continuation of the grammar allows (the first byte of a misspelt literal), and the tail is empty.",
  over=["inputs", "histories"], quant="every input string and every prefix of it",
  why="Tests check a few error cases; a stream reader depends on the classification for every possible cut point of every document.",
  files=["parser.go", "error.go"], mech=[("eof / abort", "parser.go parser.eof, parser.abort, Document.Parse"), ("ParseError.Pos", "error.go")],
  observe=["dynamic type of the error", "ParseError.Pos", "tail"],
  technique="abstract interpretation of the product of the parser with a reference grammar machine (error class and position obligations on every return path)",
  note="Decides the whole statement for all inputs. " + TRUST),
 dict(id="C05", title="A parse, failed or not, leaves the document's existing nodes alone",
  statement="Document.Parse never changes a node that is already in the document (its type, text, values or the keys and ids in them) nor the document's revision, whether it succeeds or fails. After a failed parse the document has exactly the nodes it had before.",
  over=["inputs", "histories"], quant="every document (any number of nodes, any spare capacity) and every input",
  why="Node storage is reused: a stray write shows only when an earlier value of the same document is read after a later parse, for particular capacities.",
  files=["parser.go"], mech=[("parser works on the spare capacity", "parser.go Document.parser, parser.node"), ("values reuse", "parser.go appendV, parseArray, parseObject")],
  observe=["nodes that existed before Parse", "number of nodes", "revision"],
  technique="abstract-interpretation effect analysis of the parser (every store is shown to hit new nodes, values owned by them, or memory allocated since), plus the frame of Document.Parse",
  note="Decides the statement assuming distinct nodes own distinct values arrays beforehand (what the constructors and edits produce). " + TRUST),
 dict(id="C08", title="Setters and constructors store exactly what they were given",
  statement="Every setter and constructor (SetString, SetStringRaw, SetStringHTML, SetNumber*, SetInt, SetUint, SetFloat, SetTrue, SetFalse, SetNull and Document.Text, TextRaw, TextHTML, Number, True, False, Null, Object, Array) leaves its node with exactly the requested type, the text obtained from the argument by the proper escaping or number formatting (or unchanged for the raw variants) and no children. A setter keeps the node's flags and changes no other node; a constructor appends exactly one new root node, returns a live reference to it and changes no existing node.",
  over=["inputs", "histories"], quant="every setter and constructor, every live receiver in every document, every argument",
  why="Tests set a few values on fresh documents; leftovers of a node's former life (children, flags, another node's slot) appear only for particular histories.",
  files=["node.go", "document.go"], mech=[("node.reset", "node.go node.reset"), ("slot allocation", "document.go Document.grow")],
  observe=["the node's type, raw text, values, flags", "every other node"],
  technique="abstract interpretation of every setter/constructor on symbolic documents against a state specification (result, frame, flags)",
  note="Decides the whole statement; escaping and number formatting are function symbols here (their correctness is other properties). " + TRUST),
 dict(id="C11", title="Get, Index and Lookup find exactly the addressed value",
  statement="Get returns the first value with that key, Index the value at that offset, and Lookup the value reached by following the path key by key (first match in objects; in arrays a key of decimal digits addresses the offset it denotes). When there is no such value the result is a reference to no node, still bound to the same document and revision; none of them panics.",
  over=["inputs"], quant="every document, key, index and path of any length",
  why="Tests use short paths with small indexes; digits, overflow, empty keys, duplicate keys and long paths are unbounded.",
  files=["node.go", "document.go"], mech=[("search loops", "node.go Get, Index; document.go lookup")],
  observe=["the id, revision and document of the returned node"],
  technique="abstract interpretation of the product of the code with a reference search machine (loop invariants inferred, unbounded)",
  note="Decides the whole statement for all documents and paths. " + TRUST),

 dict(id="C07", title="Reset, Close and the pool invalidate references and hand out blank documents",
  statement="After Reset, Close or Pool.Put a document has no nodes and its next revision, so no reference handed out before matches it again; Close and Put hand it to their pool exactly once, afterwards leave it alone, and ignore nil. Blank and Pool.Get return a non-nil document without nodes, whose revision they did not change. No other exported operation of Document, Node or IterV changes a revision.",
  over=["histories", "schedules"], quant="every document state and every operation of the root package",
  why="Reuse bugs need a particular history: reset, pooled, fetched again, old reference used; tests try one or two.",
  files=["document.go"], mech=[("revision counter", "document.go Document.Reset"), ("document pool", "document.go Pool.Get, Pool.Put, Blank, Document.Close")],
  observe=["number of nodes and revision after the call and when handed to the pool", "who writes the revision"],
  technique="abstract interpretation of the life-cycle operations plus a whole-module may-write and call-graph analysis of the revision field",
  note="Decides the whole statement. " + TRUST),
 dict(id="C12", title="An iterator visits every value once, in order",
  statement="Node.Values gives an iterator over exactly the node's values; the p-th Next yields entry p with its key, id, index p and the node it refers to, and returns false exactly after the last one and from then on. Reset starts over from any position and Close leaves an empty iterator. Outside an iteration Value is inert and Index is -1 (before) or -2 (after).",
  over=["inputs", "histories"], quant="every iterator state (any number of values, any position) and every operation on it",
  why="Tests iterate over three keys once; off-by-one and restart bugs depend on the position and the sequence of calls.",
  files=["node.go"], mech=[("cursor", "node.go IterV.Next, IterV.Reset, IterV.Close, IterV.Index, IterV.Value")],
  observe=["result of Next", "Key, ID, Index, Value, Len"],
  technique="abstract interpretation of each iterator operation from every abstract iterator state (inductive specification)",
  note="Decides the whole statement, by induction over calls. " + TRUST),
 dict(id="C09", title="Slice, Remove and Del keep exactly the entries they should",
  statement="On an array, Slice(i, j) leaves exactly the entries i..j-1 in order when 0 <= i <= j <= length, and Remove(i) leaves all entries but i in order when i is in range; on an object, Del(key) removes exactly the first entry with that key and keeps every other entry, in order or with the last entry moved into the gap. With an index out of range, an absent key or a receiver of another type nothing changes; none of them changes any other node, the node's type or text, the number of nodes or the revision, and none panics.",
  over=["inputs", "histories"], quant="every document, array or object of any length, every index (negative and overflowing included) and key",
  why="Tests remove one or two entries from short arrays; boundary indexes, duplicates, the last entry and untouched neighbours need all lengths and positions.",
  files=["node.go"], mech=[("container edits", "node.go Node.Slice, Node.Remove, Node.Del")],
  observe=["the receiver's values (ids and keys) in order", "all other nodes"],
  technique="abstract interpretation of every path against a pre/post specification of the values array at a symbolic index",
  note="Decides the whole statement. Set, Replace and Append are C10; Strip is not covered. " + TRUST),
 dict(id="C13", title="AppendJSON writes exactly the document's JSON, after what is there",
  statement="Node.AppendJSON and Document.AppendJSON only append to the buffer they are given: for a scalar its text (strings in quotes), for an array or object the brackets, every entry in order with exactly one comma between entries, each key in quotes followed by a colon, and each value as the serialization of the node the entry refers to. They report an error when a node is missing (an empty document included) and never report success for a value that was not written to the end.",
  over=["inputs", "histories"], quant="every document of any size and nesting, every node of every kind, every buffer",
  why="Tests serialize some documents; separators, empty containers, empty keys and failing nested values need all shapes, built by any history of edits.",
  files=["document.go", "node.go"], mech=[("recursive serializer", "document.go Document.appendJSON"), ("entry points", "node.go Node.AppendJSON, document.go Document.AppendJSON")],
  observe=["bytes appended", "bytes before them", "returned error"],
  technique="abstract interpretation of the product of the serializer with a reference grammar machine derived from the node (induction on nesting, inferred loop invariants)",
  note="Decides the whole statement; assumes the buffer does not alias the document. " + TRUST),
 dict(id="C20", title="PrintJSON and WrapUnmarshal hand over the complete value once",
  statement="PrintJSON, Node.PrintJSON, Node.WrapUnmarshalJSON and Node.WrapUnmarshalText call the writer or unmarshaler exactly once, with exactly the complete JSON of the value (for text: the unescaped string), and return its results; when the value cannot be serialized or is of the wrong kind they do not call it and return an error. A pooled buffer is emptied before use, given back at most once and not used afterwards.",
  over=["inputs", "histories", "schedules"], quant="every node of every kind, every Appender result, every consumer result",
  why="Buffer reuse bugs show as another call's bytes under particular interleavings; error paths of consumers are not tested.",
  files=["node.go"], mech=[("buffer pool", "node.go bufferpool, PrintJSON"), ("wrappers", "node.go Node.WrapUnmarshalJSON, Node.WrapUnmarshalText")],
  observe=["calls of Write, UnmarshalJSON, UnmarshalText and their arguments", "returned count and error", "uses of a buffer after it was given back"],
  technique="abstract interpretation with a typestate for pooled buffers and a content machine for the data handed over",
  note="Decides the whole statement, given AppendJSON's contract (C13) and consumers that do not retain their argument. " + TRUST),
 dict(id="C15", title="Escaped text is safe and stands for exactly the original string",
  statement="Escaped and AppendEscaped produce JSON string content that decodes to exactly the given string, every ill-formed UTF-8 byte replaced by U+FFFD. It contains no control character, unescaped quote or backslash, U+2028 or U+2029, and with the HTML flag no <, > or &. Escaped adds the surrounding quotes exactly when asked to, and AppendEscaped only appends to its buffer.",
  over=["inputs"], quant="every string of any length, well-formed UTF-8 or not, every buffer, both values of each flag",
  why="Tests escape a handful of strings; what matters is every byte at every position next to every other: the last byte, an escape right after another, truncated multi-byte characters.",
  files=["strjson/escape.go", "strjson/bytemaps.go"], mech=[("escape loops", "strjson/escape.go Escaped, AppendEscaped, escapeUTF8, escapeByte"), ("byte tables", "strjson/bytemaps.go toJSON, toHex")],
  observe=["string or buffer returned"],
  technique="abstract interpretation of the product of the escaper with a reference decoder of its own output (inferred loop invariants, tables read from the source)",
  note="Decides the whole statement. " + TRUST),
 dict(id="C16", title="Unescaping decodes every escape and keeps everything else",
  statement="For every valid JSON string content s, Unescaped, Unescape and AppendUnescaped produce exactly the string it denotes: simple escapes, \\uXXXX code units as UTF-8, surrogate pairs as one character, a lone surrogate as U+FFFD, every other byte unchanged. Unescape, given a buffer at least as long as s, writes the result at its start without exceeding it and returns its length; AppendUnescaped only appends to its buffer.",
  over=["inputs"], quant="every valid JSON string content of any length, every buffer with any spare capacity",
  why="Tests unescape a handful of strings; the code point at a boundary, a pair at the very end, a lone surrogate before another escape need every combination at every position.",
  files=["strjson/unescape.go", "strjson/bytemaps.go"], mech=[("decoding loops", "strjson/unescape.go Unescape, Unescaped"), ("hex table", "strjson/bytemaps.go fromHex"), ("capacity handling", "strjson/unescape.go AppendUnescaped, writeStringAt")],
  observe=["string or bytes produced", "length returned", "bytes that were in the buffer"],
  technique="abstract interpretation of the product of the unescaper with a reference decoder (all escape forms enumerated, inferred loop invariants)",
  note="Decides the whole statement; malformed escapes (which the parser accepts in part, unchecked) are outside of it. " + TRUST),
 dict(id="C24", title="Encoders write exactly the value's JSON or report an error",
  statement="An Encoder made for a type appends to the buffer the JSON of a value of that type, given as the value or a pointer to it: elements in order and map entries and struct fields (that are reachable and not omitted) in order with one comma between them, keys and strings quoted and escaped, integers exact in decimal, floats with their own precision (infinities and NaN only if the options allow them), null for nil pointers, interfaces and maps, and the value's own AppendJSON, MarshalJSON or MarshalText (in this order of preference) in place of these if its type or the pointer to it has one. If the encoding of any part fails, a marshaler gives no output, the type has no encoding (channels, functions, complex numbers, unsafe pointers) or the value is of another type, an error is returned, and otherwise none; it never panics.",
  over=["inputs"], quant="every Go type by kind, marshaler methods and element type, every value of it (any length), every outcome of the encoders and marshalers it calls",
  why="Types compose without bound; a lost error or a misplaced comma shows only for an element that fails or a nil inside a particular type.",
  files=["unjson/encode.go", "unjson/codec.go"], mech=[("choice of encoder", "unjson/encode.go newTypeEncoder, newEncoder"), ("encoders by kind", "unjson/encode.go *Encoder.encode"), ("struct encoder", "unjson/codec.go structCodec.encode")],
  observe=["bytes appended", "returned error"],
  technique="abstract interpretation of encoder construction and encoding per kind and method set in product with a reference grammar machine, over a model of package reflect (induction on the type for elements, inferred loop invariants)",
  note="Decides the whole statement at the level of one type constructor; which fields a struct has, the rule for omitting one and the options of a field's tag are not part of it; escaping and number formatting are function symbols here. " + TRUST),
 dict(id="C21", title="Decoders store exactly what the node says or report an error",
  statement="A Decoder made for a pointer type decodes a node to the value pointed to: booleans, numbers (within the range of the type, an overflow is an error), unescaped strings, arrays to slices (grown or cut to the number of elements) and arrays (the rest set to zero), objects to maps (a nil map is created, every entry is decoded to a zero value and stored under its unescaped key, converted to the key's type or given to its UnmarshalText) and structs (each entry to the first field with its unescaped key, nil embedded pointers on its way and no others being created), everything to empty interfaces (null is nil), to pointers (null sets nil, a nil pointer is created, others keep their target), and to types with UnmarshalNodeJSON, UnmarshalJSON or UnmarshalText (in this order, on the type or the pointer to it) by their method, and nothing else. Null gives the zero value of types without such a method, save that it leaves maps as they are and empties slices. An error is returned if the node is of a kind that does not fit (and then the value is left alone), an element, method, number or key fails, or the argument is nil, a nil pointer (unless for null) or of another type, and otherwise none; it never panics.",
  over=["inputs"], quant="every Go type by kind, unmarshaler methods, key and element type, every node (any length and keys), every previous content of the value, every outcome of nested decoders and methods",
  why="Types compose without bound and targets carry old contents; a stale element, lost error or wrong field shows only for particular types, lengths and previous values.",
  files=["unjson/decode.go", "unjson/codec.go"], mech=[("choice of decoder", "unjson/decode.go NewTypeDecoder, methodDecoder, newDecoder"), ("decoders by kind", "unjson/decode.go *Decoder.decode"), ("struct decoder", "unjson/codec.go structCodec.decode")],
  observe=["values stored in the target", "returned error"],
  technique="abstract interpretation of decoder construction and decoding per kind, method set and node type in product with a reference machine over reflection events, over a model of package reflect (induction on the type for elements, inferred loop invariants)",
  note="Decides the whole statement at the level of one type constructor; which fields a struct has is not part of it; parsing of numbers, unescaping and the conversion to empty interfaces are function symbols here; after an error the target may hold what was decoded before it. " + TRUST),
 dict(id="C25", title="Encoders, decoders and package functions share no mutable state",
  statement="Memory reachable from a package-level variable, or from an Encoder or Decoder through its methods, is never written once it is initialised, except through package sync (sync.Pool) and by Cache under its lock; and no exported function or method returns memory reachable from a package-level variable. So all package functions, and the methods of any Encoder or Decoder on different arguments, are safe to call from several goroutines at once, and no call changes what another gives.",
  over=["schedules", "inputs"], quant="every function reachable from the exported functions and from the methods of every Encoder and Decoder implementation, every store, copy, append, map update and reflect call in them",
  why="One scratch buffer or lazily filled table kept in an encoder or a package variable passes every sequential test and corrupts output only under a particular interleaving.",
  files=["unjson/encode.go", "unjson/decode.go", "unjson/codec.go", "document.go", "strjson", "numjson"], mech=[("encoders and decoders", "unjson/encode.go, unjson/decode.go, unjson/codec.go"), ("package variables", "bytemaps.go, strjson, numjson, unjson/unjson.go"), ("pool", "document.go Pool")],
  observe=["values returned by concurrent calls", "data races"],
  technique="interprocedural, context-sensitive taint and effect analysis over SSA with field-insensitive access paths: memory reachable from package variables and receivers of Encoder/Decoder implementations has no writer",
  note="Decides absence of writes to shared memory in this repository's code; the standard library's functions and user-supplied marshalers are trusted, the document pool's and the cache's own discipline are C07 and C26. " + TRUST),
 dict(id="C26", title="Cache is safe for concurrent use and gives every caller the same codec",
  statement="Methods of Cache touch its maps only while holding its lock (for writing when they change them), release it on every path exactly as often as they take it, never take it twice, and hold it over no call that may lock it again; an entry found is returned as is and never replaced or removed, a new one is stored under the requested type (and only without error), what is returned is what the map holds for the type afterwards whatever other goroutines did in between, and an error of the construction is returned with no entry stored.",
  over=["schedules", "inputs"], quant="every method of Cache, every content of the maps at every acquisition of the lock (so every interleaving with other calls)",
  why="A missing lock, a lost race between two creators or a leaked lock needs a particular interleaving to show; tests run the cache sequentially.",
  files=["unjson/cache.go"], mech=[("cache", "unjson/cache.go Cache.Decoder, Cache.Encoder")],
  observe=["encoders and decoders returned", "data races and deadlocks"],
  technique="abstract interpretation with a lock typestate: map contents become arbitrary at each acquisition (rely), each map access and each return is checked against the lock held and what was looked up last",
  note="Decides the whole statement for the methods of Cache; what the constructors build is C21 and C24. " + TRUST),
 dict(id="C27", title="Package functions and line streams: one value per line, all failures returned",
  statement="Unmarshal, UnmarshalFromString and UnmarshalFromNode parse the whole text with a document that keeps nothing of other calls, decode its value to the given one by the decoder the default cache has for its type, and give the document back; Marshal and AppendJSON append the encoding of the value by the encoder the default cache has for its type (null for nil) and nothing else. LineDecoder.Decode reads exactly one line, however long, also an unterminated last one, and decodes its value with the decoder given or else the default one for the type; LineEncoder.Encode writes the encoding of the value and a newline in one Write; NewLineDecoder and NewLineEncoder give such a stream for every reader or writer but nil. Each returns an error exactly when reading, parsing, finding the codec, decoding, encoding or writing fails (the same error where it comes from the reader, writer, decoder or encoder), when data other than white space follows the value, or when there is no value to decode to; a document borrowed is given back on each path. None panics.",
  over=["inputs", "histories"], quant="every text, value, line length and split of it into fragments by the reader, every outcome of reader, writer, parser, codec",
  why="Lines longer than the buffer, an unterminated last line, trailing data and failing readers need particular inputs; tests use a few short lines.",
  files=["unjson/unjson.go", "unjson/stream.go"], mech=[("package functions", "unjson/unjson.go"), ("streams", "unjson/stream.go LineDecoder.Decode, LineEncoder.Encode")],
  observe=["values decoded", "bytes written", "returned errors"],
  technique="abstract interpretation of the package functions and streams in product with a machine of reader, parser, codec and writer events (inferred loop invariants over fragments)",
  note="Decides the order and data flow of these functions; parsing is C03-C05, decoding C21, encoding C24, the cache C26; bufio, strings.Builder and io by their documented contracts. " + TRUST),
 dict(id="C18", title="ParseFloat gives the nearest float64 of a number and NaN otherwise",
  statement="For every text, ParseFloat returns the float64 nearest to the decimal number the text denotes, with its sign (also of zero), if the text has the form of a JSON number (leading zeros allowed), whatever the number of its digits and the size of its exponent, and NaN for every other text. It never panics.",
  over=["inputs"], quant="every text of any length",
  why="Rounding errors and overflows of the accumulator need particular numbers of digits and exponents among infinitely many; tests sample a few.",
  files=["numjson/numjson.go"], mech=[("fast path and grammar", "numjson/numjson.go ParseFloat")],
  observe=["float64 returned"],
  technique="abstract interpretation of ParseFloat in product with a machine of the number grammar with unbounded integer registers (inferred linear loop invariants, arithmetic modulo 2^64)",
  note="Decides that the result is NaN, strconv.ParseFloat of the text (trusted to be nearest; infinite for numbers beyond the range) or one correctly rounded operation on exact operands. " + TRUST),
 dict(id="C19", title="Numbers and booleans are read exactly or refused",
  statement="ParseInt, ParseUint and Node's ToInt and ToUint read a text in integer notation exactly if its value fits the type (int64 or uint64); a number in another notation is read as its nearest float64 if that is an integer that fits; everything else (out of range, with a fraction, no number) is refused with false. Node.ToFloat gives ParseFloat of the node's text and true unless it is NaN, Node.ToBool the value of true and false and true, and false and false for nodes of any other type. None panics.",
  over=["inputs"], quant="every text, by the float64 nearest to it and its notation; every live node",
  why="What goes wrong does so at the limits: 2^53, 2^63, 2^64, their neighbours, negative zero; tests sample small numbers.",
  files=["numjson/numjson.go", "node.go"], mech=[("integers", "numjson/numjson.go ParseInt, ParseUint"), ("accessors", "node.go Node.ToInt, ToUint, ToFloat, ToBool")],
  observe=["value and flag returned"],
  technique="abstract interpretation per region of the float64 value (interval partition at the constants that matter, conversions and comparisons of floats decided from the region)",
  note="Decides the whole statement given ParseFloat (C18) and strconv's integer parsers as documented; stale references are C01. " + TRUST),
 dict(id="C22", title="Floats are written in their shortest JSON form",
  statement="AppendFloat appends to its buffer, and FormatFloat returns, the shortest decimal text that identifies a float of the given size (32 or 64 bits): in decimal notation for zero and magnitudes from 1e-6 up to but not including 1e21 (compared at that size), otherwise with an exponent, of which a leading zero is dropped (1e-7). Bytes already in the buffer and all other digits are unchanged. None panics.",
  over=["inputs"], quant="every float (by region of its value), both sizes, every buffer, every form of the exponent",
  why="The notation changes at limits that no test hits exactly, at another place for float32, and the exponent is edited in the caller's buffer.",
  files=["numjson/format.go"], mech=[("notation and exponent", "numjson/format.go AppendFloat, FormatFloat")],
  observe=["bytes appended"],
  technique="abstract interpretation per region of the value and form of the exponent (interval partition, symbolic buffer contents)",
  note="Decides the whole statement given that strconv.AppendFloat gives the shortest text for its arguments; the texts of infinities and NaN are not part of it. " + TRUST),
 dict(id="C23", title="ToInterface gives the generic value of a node",
  statement="ToInterface of a live node gives the generic value and true: the unescaped text of a string, the boolean, nil for null, the float64 of a number, for an array a non-nil []interface{} with the values of all its entries in order, for an object a non-nil map with the value of each entry under its unescaped key, the last entry winning where keys are equal. It gives false exactly if a number (of the node or below) is no number or a node has no type.",
  over=["inputs"], quant="every document, every live node of each type, any number of entries and depth",
  why="A dropped, shifted or overwritten entry needs particular lengths, duplicate or escaped keys; tests convert a few small documents.",
  files=["document.go", "node.go"], mech=[("conversion", "document.go toInterface, toInterfaceMap, toInterfaceSlice")],
  observe=["value and flag returned"],
  technique="abstract interpretation of the conversion in product with a reference machine over entries (inferred loop invariants, induction on the document)",
  note="Decides the whole statement; numbers and unescaping are function symbols here (C18, C16), stale references are C01. " + TRUST),
dict(id="C29", title="omitempty leaves out exactly the empty values",
  statement="Whether omitempty leaves out a value is decided by the method with the name asked for (Omit by default) of its type, of the pointer to its type or, for pointers, of the type pointed to, if it takes nothing and returns a bool: the value is left out exactly when it returns true, and nil pointers and interfaces are left out without a call. Without such a method exactly nil pointers and interfaces, slices, maps and strings of length zero, numbers equal to zero, false, arrays all of whose elements would be left out and structs encoded field by field all of whose fields are left out are, and nothing else. Neither making the rule nor applying it panics, whether or not the value is addressable.",
  over=["inputs"], quant="every type of every kind with every set of such methods (of any signature), every name, every value",
  why="A wrong case drops data silently or panics only for one kind, one method set or a nil; tests encode one struct with a handful of zero fields.",
  files=["unjson/omit.go", "unjson/codec.go"], mech=[("rules", "unjson/omit.go newOmiter, newCustomOmiter"), ("structs", "unjson/codec.go structCodec.omiter, structCodec.omit")],
  observe=["members of the JSON object written for a struct", "panics"],
  technique="path-sensitive abstract interpretation of the construction of the rule and of its evaluation, each path's answer compared with a case table over the facts of the path; induction on element types and fields",
  note="Decides the whole statement for the rules themselves; that a field with omitempty is given the rule of its type is C28. User methods are assumed not to change the value. " + TRUST),
dict(id="C28", title="The fields a struct is encoded to and decoded from",
  statement="The codec of a struct type has exactly one entry for every key of a field that can be set and is not tagged -: fields are taken in order, embedded structs and pointers to structs without a key in their tag contribute their fields in their place (a type embedded in itself contributes nothing more), and every other field is entered with the key of its tag or its name, the path that leads to it, the decoder and the encoder of its type with the hints of its tag, and the rule for omitempty of its type exactly if omitempty is asked for. Among fields with the same key the one on the shortest path is entered, the first one of these if there are more, in the place of the first found. Making a codec fails exactly if the type is no struct or pointer to a struct or if the making of the decoder or encoder of one of the fields fails, always ends, and never panics. The codec of a type is made once per construction and known before its fields are merged, so that recursive types end.",
  over=["inputs"], quant="every struct type of any number of fields, kinds, tags and depth of embedding; every order of fields",
  why="Which of several fields with one key wins, what embedding by pointer does and that a recursive type ends shows only for particular arrangements of nested types; tests have a few fixed structs.",
  files=["unjson/codec.go"], mech=[("merge", "unjson/codec.go structCodec.merge, cmpIndex, structCodec.Get, copyIndex"), ("construction", "unjson/codec.go newStructCodec")],
  observe=["keys of the JSON object written", "fields set from a JSON object", "errors and panics of Marshal and Unmarshal"],
  technique="path-sensitive abstract interpretation of the merge with a control automaton over its steps, loop invariants for any number of fields, and induction over embedded structs; the order by depth and the search by key are analysed on arrays of any length against their definition",
  note="Decides which fields are entered and with what; what is done with the entries is C21, C24 and C29. Depth counts hops through pointers, as the code does (a field in a struct embedded by pointer is deeper than one in a struct embedded by value). " + TRUST),
dict(id="C10", title="Set, Replace and Append attach values without sharing or cycles",
  statement="A value given to Set, Replace or Append of a live receiver of the right type is attached itself exactly if it is a free-standing node of the same document (created or detached on its own and attached nowhere) that is not its root node and does not contain the receiver; it is free-standing no longer. Any other node that exists is copied deeply, and the copy attached. A stale or missing reference, one without a document, an index out of range, or a receiver of another type changes nothing. Set makes the value the one of the first entry with that key, or a new last entry with that key; Replace the one of entry i; Append adds its values as new last entries, in order, skipping references to nothing. The copy consists of new nodes only, has the type and text of the source and a copy of each of its values in order under the same key, and shares no storage with it. All other entries of the receiver, all other nodes that existed, the source and the revision are unchanged, also when the array of nodes has to move. So no node ever has two parents or contains itself.",
  over=["inputs", "histories"], quant="every document and receiver, every index and key, every value: free-standing, the receiver itself, its ancestor, the root, part of a value, of another document, stale, missing or without document; every nesting of the source; Append of up to two values",
  why="Sharing and cycles come from particular sequences of edits (a value attached twice, a parent given to its child), lost updates only when the node array happens to grow during the copy; tests attach fresh values to small documents.",
  files=["node.go", "document.go", "parser.go"], mech=[("copy or adopt", "document.go Document.copyOrAdopt, Document.contains"), ("deep copy", "document.go Document.ncopy, Document.grow; parser.go appendV"), ("edits", "node.go Node.Set, Node.Replace, Node.Append")],
  observe=["entries and flags of the receiver", "the nodes added", "the source and all other nodes"],
  technique="abstract interpretation of every path for each kind of value against a pre/post specification at a symbolic entry and node, with both outcomes of growth (a moved array makes older pointers stale); induction on nesting for the copy and the containment search",
  note="Append is decided for calls with up to two values; more are handled by the same loop but not proved. Assumes documents are trees to begin with (parsing builds trees, C03; edits keep them, this property). " + TRUST),
dict(id="C14", title="Accessors report exactly what the document stores",
  statement="For every live node Raw is its text, Type its type, Data both, ID its id, Document its document, Unescaped the unescaped text of a string node and empty for every other type, and TypeError an error that names the node's type and the type wanted (TypeInvalid for a reference to nothing). With designates the node with the id given in the same document at the revision of the reference it is called on, so a stale reference stays stale. Document.Root and Document.Node designate node 0 and the node with the id given at the document's current revision. V.Key and V.ID are the entry's. Type.Types lists exactly the single types of a mask in increasing order and Type.String names each type. None of them writes to the document or panics.",
  over=["inputs"], quant="every live node (any type, text, values, document), every dead reference for With and TypeError, every id, every one of the 256 masks",
  why="Accessors are one-line functions that everything else is observed through; a wrong revision, a flag left in a type or a mask loop that stops early shows only for particular ids, types or histories.",
  files=["node.go", "document.go", "types.go", "error.go"], mech=[("accessors", "node.go Node.Raw, Type, Data, Unescaped, ID, With, Document, TypeError"), ("references", "document.go Document.Root, Document.Node, V.Key, V.ID"), ("type masks", "types.go Type.Types, Type.String")],
  observe=["returned values"],
  technique="abstract interpretation of each accessor against a pre/post specification over symbolic nodes; masks by path partitioning on their bits",
  note="What Unescaped text is, is C16; the number conversions are C18 and C19; dead references in general are C01. " + TRUST),
dict(id="C06", title="Parsed values carry the type and text of their tokens",
  statement="For every value accepted by Document.Parse there is a node whose type is that of the token (object, array, string, number, true, false, null) and whose text is exactly the token: what stands between the quotes of a string (escapes unresolved), all bytes of a number or literal, nothing for arrays and objects; it has exactly as many values as the array or object has elements. Parse then returns a live reference to the root value at the document's current revision, and nothing that happens after a node was made (its siblings, its elements, node storage growing and moving) changes it. Accepting a valid value never panics.",
  over=["inputs", "histories"], quant="every accepted input of any length and nesting, every document (any number of nodes, any spare capacity, any leftovers in it)",
  why="Node storage moves while a value is being parsed and values arrays left by earlier documents are reused; writing through a pointer from before the move, or leaving a leftover in place, shows only for particular capacities, nesting and histories.",
  files=["parser.go", "document.go"], mech=[("a node per value", "parser.go parseValue, parseArray, parseObject, parser.node"), ("values reuse", "parser.go appendV, clearValues"), ("the root", "parser.go Document.Parse")],
  observe=["Type, Raw and number of values of every node of the parsed tree", "the node returned by Parse"],
  technique="abstract interpretation of the product of the parser with the reference grammar machine, extended by the node, text and count of the current value and an arbitrary other node (inductive contract for the recursion, inferred loop invariants, moved storage tracked by aliasing)",
  note="Nested values by induction on nesting. What the entries are is C30; which inputs are accepted is C03. " + TRUST),
 dict(id="C30", title="The k-th entry is the k-th element, under its own key",
  statement="For every array or object accepted by Document.Parse and every k, the k-th entry of its node is the id of the node the k-th element was parsed into, with, in an object, exactly the text between the quotes of the k-th name as its key (escapes unresolved, duplicates and empty names kept), and in an array the empty key; neither the elements parsed later nor growth of the values array or the node array changes it.",
  over=["inputs", "histories"], quant="every accepted array and object of any length and nesting, every k, every document (any leftovers in reused values arrays, any capacities)",
  why="Entries are appended to a values array that may be left over from an earlier document, doubles at certain sizes and is reached through a node array that may move during the parse of each element; a lost or misplaced entry needs the right size, nesting or history.",
  files=["parser.go", "document.go"], mech=[("entries", "parser.go parseArray, parseObject, appendV"), ("nodes", "parser.go parser.node")],
  observe=["key and id of every entry of every node of the parsed tree"],
  technique="abstract interpretation of the product of the parser with the reference grammar machine, extended by a ghost for the k-th element's name and node, k arbitrary (inductive contract for the recursion, inferred loop invariants)",
  note="Nested values by induction on nesting; with C06 this gives the whole tree. " + TRUST),
]

NA = [
]
