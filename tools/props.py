"""Source of properties.jsonl (python3 tools/gen.py writes it and MANIFEST.json)."""
J = 'Code/Json4C4/C4Json.cpp'
JH = 'Code/Json4C4/C4Json.h'
T = 'Code/Terathon/'


def P(id, title, statement, over, text, why, files, mech):
    return dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))


PROPS = [
    P('C01', 'Parsing accepts exactly the JSON grammar',
      'Parsing a buffer succeeds if and only if the bytes before its terminator form one RFC 8259 JSON text in valid UTF-8, with whitespace allowed around it; the only deliberate exception is that an escaped U+0000 is refused. A missing terminator or an empty buffer is reported with its own status. How lone surrogate escapes are treated is left open.',
      ['inputs'], 'every byte sequence', 'The five tests parse a few fixed files; acceptance is a statement about every byte string, and most wrong parsers agree with the right one on well-formed samples.',
      [J, T + 'TSText.cpp'], [('per-kind parsers and their dispatch', J + ': ParseAnyValue, StringValue/NumberValue/BoolValue/NullValue/ArrayValue/ObjectValue::Parse'), ('end-of-text check', J + ': ParseJsonRoot'), ('UTF-8 validation', T + 'TSText.cpp: ValidateUnicodeChar')]),
    P('C02', 'The parsed tree is exactly what the text says',
      'After a successful parse the tree has exactly the values of the text: each value has the one right kind, strings and names have the decoded bytes (escapes and surrogate pairs resolved to UTF-8; an unpaired surrogate, where accepted, is its three-byte form), numbers are the correctly rounded doubles with their sign, arrays have every element in order, and objects have every distinct name with its first value. Nothing is missing, added or reordered.',
      ['inputs'], 'every valid JSON text', 'Tests compare a few fields of a few documents; fidelity must hold for every combination of escapes, lengths, numbers and nesting.',
      [J, JH, T + 'TSString.cpp'], [('two-pass string decoding', J + ': ReadStringLiteral, ReadStringEscapeChar'), ('number conversion', J + ': ReadDoubleLiteral, NumberValue::Parse'), ('member insertion', J + ': ObjectValue::Parse')]),
    P('C03', 'Parsing any buffer is memory safe, terminates and leaks nothing',
      'For every buffer content, terminated or not, parsing reads only the buffer, accesses only live initialised memory, ends, and once the document object is gone every allocation has been released. The same holds when one document object is used for several parses in a row.',
      ['inputs', 'histories'], 'every buffer content and every short sequence of parses', 'A test shows one input not crashing; out-of-bounds reads depend on exact byte positions and on inputs nobody thinks of.',
      [J, T + 'TSArray.h', T + 'TSString.cpp', T + 'TSMap.cpp'], [('terminator checks and bounded scanning', J + ': StructuredData::Parse, ParseJsonRoot, ReadStringLiteral'), ('ownership of values', J + ': ParseValue, ArrayValue::~ArrayValue, ObjectValue::~ObjectValue')]),
    P('C04', 'Syntax errors are located in the text',
      'When a buffer is rejected for its syntax, the reported line and column (both counted from 1, lines separated by newline characters, columns in bytes) denote a place of the text that is not before the start of the offending token and not after the first byte that cannot continue a valid text. A successful parse and failures that are not about syntax report no place.',
      ['inputs'], 'every rejected byte sequence', 'Tests check one malformed file; the position must be right for an error at any offset, after any whitespace, line structure and nesting.',
      [J], [('line and column computation', J + ': ParseJsonRoot'), ('text pointer left at the failure', J + ': Parse functions')]),
    P('C05', 'Writing a parsed document and parsing it again gives the same tree',
      'For every document tree that can be written, parsing the written file (beyond the size limit for files, its bytes) gives back an equal tree: the same kinds, byte-identical strings and names, bit-identical finite numbers, the same element order and the same members. Writing that second tree gives the same bytes again.',
      ['inputs', 'configurations'], 'every tree and every whitespace indentation', 'Tests round-trip a few values; loss of precision, escaping gaps and separator errors need specific values, lengths or shapes.',
      [J], [('escaping writer', J + ': WriteStringLiteral'), ('number formatting', J + ': NumberValue::Write'), ('container writers', J + ': ArrayValue::Write, ObjectValue::Write')]),
    P('C06', 'What is written is valid JSON, with members in insertion order',
      'Whenever writing reports success the file holds one RFC 8259 JSON text in which objects list their members in the order in which they were inserted or parsed and nested values are indented by the requested count of the requested character, for every indentation count and every whitespace character. Values that JSON cannot express (infinities, NaN) make writing report an error.',
      ['inputs', 'configurations'], 'every tree, indentation length and whitespace indentation character', 'Tests read the output back with the same library, so writer and parser can be wrong together, and only with the default indentation.',
      [J], [('writers', J + ': WriteStringLiteral and the Write functions'), ('insertion order', J + ': ObjectValue::InsertAccountedMapElement')]),
    P('C07', 'Parsing a file equals parsing its bytes, however the system delivers them',
      'Parsing a file gives the same status, place and tree as parsing a buffer with the same bytes, for every way in which reads return fewer bytes than asked for. A file that cannot be opened or read, ends early, or exceeds the documented size limit is reported with a status of its own and without reading past what was delivered, and the descriptor is closed exactly once on every path.',
      ['inputs', 'schedules', 'fault_sequences'], 'every file content and size, every partition into reads, every read fault', 'Tests read small regular files, where a single read returns everything; short reads, faults and sizes at the limit never occur.',
      [J], [('read loop', J + ': File::ReadFile'), ('size limit', J + ': StructuredData::Parse(const char*), MAX_FILE_SIZE')]),
    P('C08', 'A successful write leaves exactly the document in the file',
      'When writing reports success the file holds exactly the serialization of the document, whatever it held before and however the system splits the writes; when any write fails, or the file cannot be opened, a status other than success is returned. Writing a document that has no value changes no file, and every descriptor is closed exactly once.',
      ['inputs', 'schedules', 'fault_sequences', 'histories'], 'every previous file content, every partition into writes and every failing write', 'Tests write to a fresh file on a healthy disk.',
      [J], [('open mode and write loop', J + ': File::OpenFile, File::WriteFile'), ('status propagation', J + ': StructuredData::Write')]),
    P('C09', 'Typed data survives serialize, write, parse and deserialize',
      'Filling a document from typed data (numbers, booleans, strings, null, arrays and vectors, string-keyed maps, user structures with prototypes, and nestings of them), writing it, parsing it and reading it back gives equal data, and so does reading it back from the in-memory document. Re-serializing into a used document or reading into used arrays leaves nothing of the old contents.',
      ['inputs', 'programs', 'histories'], 'every value of each supported type shape', 'Tests use a few constants per type; empty containers, long strings, extreme doubles and reuse are not sampled.',
      [JH, J], [('typed Serialize/Deserialize overloads', JH + ': Serialize, Deserialize, SerializeProto, DeserializeProto'), ('value creation', JH + ': Detail::CreateValueFor')]),
    P('C10', 'Validation predicts deserialization; required and optional members are honoured',
      'For every document and every prototype, validation succeeds exactly when deserialization into it succeeds, and otherwise both report the same status. A missing required member or a value of another kind is always an error at any depth, a missing optional member never is and leaves its target unchanged, and an optional member that is present is held to its type.',
      ['inputs', 'programs'], 'every document, for a set of prototype shapes', 'Tests validate documents that fit; agreement on documents that do not fit is not sampled.',
      [JH], [('ValidateProto/DeserializeProto', JH), ('kind checks', JH + ': Validate, Deserialize')]),
    P('C11', 'Allocation failure becomes a status, never a crash, a wrong result or a leak',
      'If any single allocation fails during parsing, writing, serializing into or deserializing from a document, the call returns the exception status (or a correct success), the program is not terminated, no memory is corrupted or leaked, and the document object can be used again afterwards.',
      ['fault_sequences', 'inputs'], 'every failing allocation of each operation', 'Tests never make an allocation fail.',
      [J, JH, T + 'TSArray.h', T + 'TSString.cpp'], [('exception barrier', JH + ': MayThrow'), ('container growth', T + 'TSArray.h: SetReservedCount; ' + T + 'TSString.cpp: Resize')]),
    P('C12', 'A failed parse leaves nothing of the rejected text and a usable document',
      'After a parse that fails, the document is either empty or still holds what it held before, never a tree built from the rejected text. Reusing a document object gives the same result as a fresh one for every sequence of parses.',
      ['histories', 'inputs'], 'every sequence of parses of valid and invalid texts', 'Tests parse once per document object.',
      [J], [('root handling', J + ': StructuredData::Parse, ParseJsonRoot')]),
    P('C13', 'Object members are found by exact name and exactly once',
      'In an object built by parsing or by insertion, looking up a name gives the member whose name has exactly those bytes and nothing otherwise, the typed lookups give it only if it has that type, and iteration visits every member once in ascending byte order of the names. When a name is repeated the first value is kept, insertion reports the refusal, and nothing is leaked.',
      ['inputs', 'histories'], 'every set and order of names, including repeated and prefix-related names', 'Tests look up a few short distinct names.',
      [J, JH, T + 'TSMap.h', T + 'TSMap.cpp'], [('lookup', T + 'TSMap.h: FindMapElement; ' + J + ': ObjectValue::Find*'), ('insertion', J + ': InsertAccountedMapElement')]),
    P('C14', 'The ordered map behaves as a sorted set of its elements under every history',
      'After any sequence of insertions, replacing insertions, reserved insertions, removals, detachments and element deletions, the map holds exactly the elements inserted and not removed, finds each by its key and nothing else, iterates and indexes them in key order in both directions, and reports membership and ownership correctly. The tree is never higher than an AVL tree of the same size can be, and destroying the map destroys each of its elements once.',
      ['histories', 'inputs'], 'every operation sequence and key order', 'The tests never remove from a map or build more than a few members.',
      [T + 'TSMap.h', T + 'TSMap.cpp'], [('AVL insertion and removal', T + 'TSMap.cpp: InsertLeftSubnode, InsertRightSubnode, RemoveBranchNode, Rotate*/ZigZag*'), ('replacement', T + 'TSMap.cpp: ReplaceMapElement')]),
    P('C15', 'The dynamic array behaves as a sequence and manages element lifetimes exactly',
      'Under every sequence of append, insert, remove, resize, clear, purge, reserve, copy and move, with or without inline storage, the array equals a reference sequence, every element is constructed once and destroyed once, and no memory is leaked or touched out of bounds. A failed allocation leaves the array as it was. Element types whose move constructors throw are excluded.',
      ['histories', 'inputs'], 'every operation sequence', 'The tests append a handful of elements.',
      [T + 'TSArray.h'], [('growth', T + 'TSArray.h: SetReservedCount'), ('element moves', T + 'TSArray.h: InsertArrayElement, RemoveArrayElement')]),
    P('C16', 'Dynamic strings behave as byte strings under every sequence of operations',
      'Under every sequence of construction, assignment, move, append, concatenation, truncation and editing, a dynamic string holds exactly the bytes of a reference string, its reported length equals the length of its terminated text, and no memory is leaked, overrun or used after release. This includes the transitions between short and long contents. The characters added when SetStringLength lengthens a string are unspecified.',
      ['histories', 'inputs'], 'every operation sequence over contents of every length around the storage thresholds', 'Tests assign short constants.',
      [T + 'TSString.h', T + 'TSString.cpp'], [('short/long storage', T + 'TSString.cpp: Resize, SetStringLength, operator=, operator+=')]),
    P('C17', 'Fixed-capacity strings never overflow and keep the longest prefix that fits',
      'Under every sequence of construction, assignment, append and concatenation, a fixed-capacity string holds the reference result cut to its capacity, is always terminated within its storage, and compares accordingly.',
      ['inputs', 'histories'], 'every content and length around the capacity', 'Tests only use them for short status messages.',
      [T + 'TSString.h', T + 'TSText.cpp'], [('bounded copies', T + 'TSString.h: String<len>; ' + T + 'TSText.cpp: CopyText')]),
    P('C18', 'UTF-8 and UTF-16 conversions are exact inverses and reject malformed input',
      'Encoding any Unicode scalar value gives its shortest UTF-8 form, decoding it gives the value back, and malformed, overlong or out-of-range sequences are recognised for every byte sequence. Converting between UTF-8 and UTF-16 text preserves every character (encoded or lone surrogates are left open), the predicted lengths match what is produced, the output limit is respected, and no read goes beyond the terminator.',
      ['inputs'], 'every code point and every byte or word sequence', 'No test calls these functions with multi-byte text.',
      [T + 'TSText.cpp'], [('encoders and decoders', T + 'TSText.cpp: ValidateUnicodeChar, ReadUnicodeChar, WriteUnicodeChar, ConvertWideTextToString, ConvertStringToWideText')]),
    P('C19', 'Text comparisons are consistent orders',
      'For all texts, equality, less-than and less-or-equal agree with each other and with unsigned byte order, the caseless forms with the order of the texts with letters folded to upper case, and the length-limited forms with the order of the prefixes. The numbered comparisons are strict weak orders that compare embedded numbers by value, and of equal values the one with fewer digits comes first.',
      ['inputs'], 'every pair and triple of texts', 'Orders are laws over all pairs and triples; tests check none.',
      [T + 'TSText.cpp', T + 'TSString.h'], [('comparisons', T + 'TSText.cpp: CompareText*, CompareNumberedText*')]),
    P('C20', 'Integers are printed exactly',
      'Every 32-bit and 64-bit integer, signed or unsigned, is turned into its decimal text by every conversion, constructor, assignment and append that takes it, and into its fixed-width hexadecimal text by the hexadecimal conversions; a limit on the length cuts the text without overrunning the destination, and the returned length is the length of the text.',
      ['inputs'], 'every integer value and length limit', 'Extremes and limits are not sampled.',
      [T + 'TSText.cpp', T + 'TSString.cpp', T + 'TSString.h'], [('conversions', T + 'TSText.cpp: IntegerToString, Integer64ToString; ' + T + 'TSString.cpp: Integer*ToHexString*')]),
    P('C21', 'Every status and parse result has its own correct message',
      'Every status value has a non-empty message of its own that states its meaning, and the text of a parse result is that message followed, for located errors, by the exact line and column in decimal.',
      ['inputs'], 'every status, line and column', 'Tests print messages without checking them.',
      [J, JH], [('message table', J + ': StatusString, StatusToString, ParseResultToString')]),
    P('C22', 'Text searching, scanning and copying helpers do what their descriptions say',
      'For all texts, the helpers that search (for a character, an unquoted character, a substring with or without case), count, copy, hash, split paths, and scan integers, floats, quoted strings and type codes return the result of their definition, respect their length limits, terminate their outputs and never access memory beyond the terminator or the limit. Left open: searching for the empty text or the terminator, and what the float scanner makes of malformed numbers.',
      ['inputs'], 'every text and limit', 'No test calls them.',
      [T + 'TSText.cpp', T + 'TSText.h'], [('helpers', T + 'TSText.cpp: Find*, CountChars, CopyText, Hash, Read*, Get*Length')]),
    P('C23', 'Integer primitives meet their definitions for every value',
      'Absolute value, sign, minimum, maximum, clamping to zero, modular increment and decrement, exchange, leading-zero count, integer logarithm and rounding to powers of two return the mathematically defined value for every argument in their domain.',
      ['inputs'], 'every 32- and 64-bit argument in the domain', 'Branch-free bit tricks fail on single values; no test calls them directly.',
      [T + 'TSBasic.h'], [('bit tricks', T + 'TSBasic.h')]),
    P('C24', 'Rounding, sign, min/max and clamping of floats are exact for every float',
      'For every float, the functions of the math library that are defined without approximation (absolute value, sign, minimum, maximum, clamping, saturation, floor, ceiling, fraction) return their exact mathematical value, and the lane-wise SIMD vector operations (arithmetic, rounding, selection, comparison, smearing, shuffling, products, packing of integers) compute their definition in every lane. The signs of zeros, NaN in orderings, and values above 2^23 given to the Positive and Negative rounding forms are left open.',
      ['inputs'], 'every bit pattern of every argument', 'No test calls them; rounding and selection fail on single bit patterns (zeros, infinities, large and half-way values).',
      [T + 'TSMath.h', T + 'TSSimd.h'], [('scalar functions', T + 'TSMath.h: Fabs, Fmin, Fmax, Saturate, Floor, Ceil, Frac'), ('vector functions', T + 'TSSimd.h: Vec*')]),
    P('C25', 'Deep nesting is parsed, written and destroyed within the stack',
      'A document within the documented size limit is parsed, written and destroyed without exhausting the call stack, however deeply its arrays and objects are nested.',
      ['inputs'], 'every nesting depth that fits the size limit', 'Tests nest two or three levels.',
      [J], [('recursive parsing, writing and destruction', J + ': ParseAnyValue, Write, destructors')]),
    P('C26', 'Roots, trigonometric, exponential and logarithm functions are float-accurate',
      'Square root, inverse square root, sine, cosine, tangent, their inverses, exponential, logarithm and power return the mathematical value within the accuracy of single precision for every argument in their domain, in both the scalar and the SIMD forms.',
      ['inputs'], 'every float in the domain', 'No test calls them.',
      [T + 'TSMath.h', T + 'TSMath.cpp', T + 'TSSimd.h'], [('approximations', T + 'TSMath.cpp; ' + T + 'TSSimd.h')]),
    P('C27', 'The decimal text of a float denotes that float within its printed precision',
      'For every float, the text produced by the float conversion and the string operators that use it is a decimal number with one to seven decimals, without superfluous zeros and, outside of 0.0001 to 100000, with a power of ten, that differs from the float by less than 0.000011 (0.0001 of the mantissa where there is a power of ten); denormals count as zero, zeros, infinities and NaN have their own texts, and the length limit and the returned length are exact.',
      ['inputs'], 'every float and length limit', 'No test calls it.',
      [T + 'TSText.cpp', T + 'TSString.h'], [('conversion', T + 'TSText.cpp: FloatToString')]),
]
