DEC = ['src/mfast/coder/decoder/decoder_field_operator.cpp', 'src/mfast/coder/decoder_v2/fast_decoder_core.h',
       'src/mfast/coder/common/codec_helper.h']
ENC = ['src/mfast/coder/encoder/encoder_field_operator.cpp', 'src/mfast/coder/encoder_v2/fast_encoder_core.h',
       'src/mfast/coder/common/codec_helper.h']

prop('C01', 'Decoding a field yields the value its operator defines',
     'For every field type, presence, operator, initial value and dictionary state, decoding a field from any stream gives it exactly '
     'the value, or the absence, that the FAST operator rules define. Both decoders agree on this.',
     ['inputs', 'histories', 'configurations'],
     'all stream contents, all values and lengths, all dictionary states reachable by earlier messages, all operator/presence/initial value/type combinations',
     'The tests decode a few dozen hand-written byte strings; the operator behaviour is a product of operator, presence, initial value, '
     'dictionary state and type with unbounded values and string lengths.',
     DEC, [('operator decoding (v1)', 'decoder_field_operator.cpp: *_operator::decode_impl'), ('operator decoding (v2)', 'fast_decoder_core.h: decode_field overloads'),
           ('base value and delta application', 'codec_helper.h')], tech=AI, note=AINOTE)

prop('C02', 'Decoding leaves the dictionary in the state the operator defines',
     'After a field has been decoded, the entry that later messages use for it is undefined, empty or assigned, with exactly the value '
     'the FAST operator rules prescribe. A NULL for a default or delta field leaves it unchanged.',
     ['inputs', 'histories', 'configurations'],
     'all message histories through the dictionary state they leave, all streams, all field configurations',
     'A wrong dictionary state is only visible in a later message with a suitable operator; tests check the entry after a few single decodes.',
     DEC, [('saving previous values', 'decoder_field_operator.cpp / fast_decoder_core.h / codec_helper.h: save_previous_value')], tech=AI, note=AINOTE)

prop('C03', 'What an encoder writes decodes back to the field value',
     'For every field type, presence, operator, initial value and dictionary state, the presence bits and values an encoder writes '
     'for a field are in the form the operator defines and, read by a conforming decoder with the same dictionary state, give back the '
     'same value or absence. No value the format can carry makes the encoder fail, except for a mandatory field whose previous value is empty.',
     ['inputs', 'histories', 'configurations'],
     'all field values including absent ones, all dictionary states, all operator/presence/initial value/type combinations',
     'Round-trip tests sample a few values per operator; errors sit in combinations (absent field with assigned dictionary entry, empty string, '
     'unequal lengths, 32-bit wrap-around) that are a product too large to list with open-ended values.',
     ENC + ['src/mfast/coder/encoder/fast_ostream_inserter.h', 'src/mfast/coder/encoder_v2/fast_ostream_inserter.h'],
     [('operator encoding (v1)', 'encoder_field_operator.cpp: encode_impl'), ('operator encoding (v2)', 'fast_encoder_core.h: encode_field')], tech=AI, note=AINOTE)

prop('C04', 'Encoder and decoder dictionaries stay in step',
     'After encoding a field, the encoder keeps the dictionary entry (undefined, empty, or assigned with its value) that a decoder '
     'has after reading the output, so that the two stay synchronised over any history of messages.',
     ['inputs', 'histories', 'configurations'],
     'all histories, through the dictionary state; all values, absences and field configurations',
     'Desynchronisation shows only several messages later; tests encode one or two messages per configuration.',
     ENC + ['src/mfast/coder/encoder/fast_ostream.h'], [('saving previous values', 'fast_ostream.h: save_previous_value')], tech=AI, note=AINOTE)

prop('C05', 'Dynamic errors are raised exactly where the standard demands them',
     'Decoding a field raises the dynamic error the FAST rules define (undefined or empty base for a mandatory field, delta beyond the base '
     'value) with its code, in exactly those situations, and no error otherwise.',
     ['inputs', 'histories', 'configurations'],
     'all streams, dictionary states and field configurations',
     'Tests exercise a handful of error cases; the absence of spurious or missing errors is a statement about all other combinations.',
     DEC, [('error raising', 'decoder_field_operator.cpp / fast_decoder_core.h / codec_helper.h: BOOST_THROW_EXCEPTION')], tech=AI, note=AINOTE)

prop('C06', 'Decoders consume exactly the bits and values the operator occupies',
     'Decoding a field takes from the presence map exactly the bits, and from the stream exactly the values in the nullable or plain '
     'representation, that its operator, presence and type occupy. Otherwise every following field would be misread.',
     ['inputs', 'configurations'],
     'all streams, all dictionary states, all field configurations',
     'A wrong bit count corrupts whatever follows; tests only have fields in a few orders and combinations.',
     DEC + ['src/mfast/instructions/field_instruction.h'], [('presence map reading', 'decoder_presence_map.h: is_next_bit_set'), ('nullable reading', 'fast_istream_extractor.h')],
     tech=AI, note=AINOTE)

prop('M01', 'Decoded and encoded data never read freed, foreign or out-of-range memory',
     'Across any decoding or encoding of a field, buffers of message fields and dictionary entries are released once by their owner and not used '
     'afterwards, compared or copied ranges stay inside their value, and a dictionary entry never depends on a buffer owned by the message being encoded.',
     ['inputs', 'histories', 'configurations'],
     'all values, lengths, dictionary states and field configurations of both codecs',
     'Use of released or foreign memory mostly goes unnoticed without a suitable history and a sanitizer, and only for the lengths a test happens to use.',
     DEC + ENC + ['src/mfast/vector_ref.h', 'src/mfast/instructions/byte_vector_instruction.cpp'],
     [('buffer ownership', 'value_storage capacity; vector_ref.h reserve/assign/shallow_assign'), ('range comparison', 'encoder string delta and tail')],
     tech=AI, note=AINOTE)

WI = 'static analysis: bit-precise abstract interpretation (value classes, bit provenance, interval and pointer confinement) of the LLVM IR resolved from the current sources'
WF = ['src/mfast/coder/decoder/fast_istream.h', 'src/mfast/coder/encoder/fast_ostream.h', 'src/mfast/coder/encoder/fast_ostreambuf.h',
      'src/mfast/coder/decoder/fast_istreambuf.h']
WNOTE = ('Every value class (position of the top bit, sign, nullability, NULL) or buffer size in the stated range is interpreted '
         'with all other bits unknown; the oracle is the FAST 1.1 transfer encoding. Trusted: clang lowering, the IR interpreter, '
         'libstdc++ copy/memcpy summaries; bounded where a size is enumerated (stated in the evidence).')

prop('W01', 'Integers use the stop-bit transfer encoding, exactly and both ways',
     'Each signed or unsigned, nullable or mandatory integer is written as its minimal stop-bit encoding (nullable: non-negative '
     'values shifted by one, NULL as 0x80), and reading such an encoding, also with redundant leading groups, gives back that value '
     'and consumes exactly its bytes.',
     ['inputs'], 'all values of int16/int32/uint32/int64/uint64, nullable and mandatory, NULL',
     'Tests try a handful of constants; wrong behaviour sits at group boundaries, sign bits and the extreme values of each width.',
     WF, [('integer encoding', 'fast_ostream.h: encode'), ('integer decoding', 'fast_istream.h: decode')], tech=WI, note=WNOTE)

prop('W02', 'Strings and byte vectors use the transfer encoding, exactly and both ways',
     'ASCII strings are written with a stop bit (with the zero-preamble forms for empty and NUL), unicode strings and byte vectors with '
     'a length preamble, NULL as 0x80; reading them gives back the same characters and length and consumes exactly their bytes.',
     ['inputs'], 'all contents; lengths 0..3, 7, 130 (thorough: 0..19 and the preamble boundaries)',
     'Tests use a few literals; the preamble forms and length boundaries are easy to get wrong for one kind or one nullability only.',
     WF, [('string encoding', 'fast_ostream.h: encode'), ('string decoding', 'fast_istream.h: decode')], tech=WI, note=WNOTE)

prop('W03', 'Presence maps carry each bit to the same position',
     'The i-th bit the encoder puts into a presence map of any size is the i-th bit the decoder finds in it, seven bits a byte with the '
     'stop bit on the last one, other bytes of the message untouched; beyond the received map every bit reads as clear.',
     ['inputs'], 'all bit values; maps of 1..69 bits written and 1..23 bytes read (thorough: 259 bits, 59 bytes)',
     'Maps larger than a machine word and partial final bytes do not occur in the test templates.',
     ['src/mfast/coder/encoder/encoder_presence_map.h', 'src/mfast/coder/decoder/decoder_presence_map.h'] + WF[:2],
     [('map writing', 'encoder_presence_map.h: set_next_bit, commit'), ('map reading', 'decoder_presence_map.h: is_next_bit_set, load')],
     tech=WI, note=WNOTE)

prop('W04', 'Decoders never read outside the message they are given',
     'Whatever the bytes of a message are, truncated or corrupt, the decoding primitives read only bytes of that message, leave the '
     'cursor inside it and hand out only strings inside it; otherwise they raise an error.',
     ['inputs'], 'all contents of windows of 0..11 bytes (thorough: 0..19) at every primitive; string lengths unbounded',
     'Tests decode well-formed messages; a read past the end goes unnoticed without a sanitizer and the right truncation.',
     WF[:1] + [WF[3]] + ['src/mfast/coder/decoder/decoder_presence_map.h'],
     [('input bounds', 'fast_istreambuf.h'), ('loops over input', 'fast_istream.h: decode; decoder_presence_map.h')], tech=WI, note=WNOTE)

prop('W05', 'Encoders write only inside the buffer and never disturb earlier output',
     'Each output primitive either writes entirely within the buffer it was given and reports exactly the bytes written, or raises an '
     'error. Removing unneeded presence map bytes at commit leaves everything before and after the map as it was.',
     ['inputs'], 'all byte values, buffer fill levels and lengths for buffers up to 16 bytes; maps up to 64 bits',
     'Overflow needs a message that just exceeds the buffer; map removal depends on which bits are set and what precedes the map.',
     [WF[2], WF[1], 'src/mfast/coder/encoder/encoder_presence_map.h'],
     [('buffer bounds', 'fast_ostreambuf.h: sputc, sputn'), ('presence map removal', 'fast_ostreambuf.h: write_bytes_at; shrink')], tech=WI, note=WNOTE)

SW = 'static analysis: path-partitioned abstract interpretation of the LLVM IR of whole-message coding against a grammar acceptor built from the template definitions'
SWNOTE = ('Stream contents are abstracted to their grammar and every path of the coder is partitioned by it; values stay abstract. '
          'Templates: drivers/gen/shapes.xml (all scope kinds, operators on lengths, leaf/boxed/bare groups, static and dynamic nesting); lengths 0..2 '
          'and two nesting levels represent the others. Trusted: clang lowering, the IR interpreter, the acceptor; primitives are decided by W*, fields by C01..C06.')
SD = ['src/mfast/coder/decoder/fast_decoder.cpp', 'src/mfast/coder/decoder_v2/fast_decoder_core.h', 'src/mfast/coder/decoder_v2/fast_decoder_v2.cpp']
SE = ['src/mfast/coder/encoder/fast_encoder.cpp', 'src/mfast/coder/encoder_v2/fast_encoder_core.h', 'src/mfast/coder/encoder_v2/fast_encoder_v2.cpp']

prop('C07', 'Decoders rebuild the message structure the stream describes',
     'For every template and stream, both decoders read presence map bits from the map of the segment they belong to, read a map for a group, element '
     'or nested message exactly when one is transmitted, and deliver exactly the transmitted groups, sequence elements and nested messages, '
     'also when the target still holds an earlier message.',
     ['inputs', 'histories', 'configurations'],
     'all streams up to their grammar: every combination of bits, NULLs, lengths 0..2, template ids; two consecutive messages; nesting to depth 2',
     'A map read from the wrong scope or a leftover from an earlier message shows only for particular combinations of bits, emptiness and history.',
     SD, [('scopes (v1)', 'fast_decoder.cpp: visit, decode_segment'), ('scopes (v2)', 'fast_decoder_core.h: decode_field for group/sequence/nested')],
     tech=SW, note=SWNOTE)

prop('C08', 'Encoders write the structure of the message and nothing else',
     'For every message of every template, both encoders write the template id, presence maps, lengths and elements in the order and scopes the FAST grammar '
     'prescribes, with one bit for each field that needs one, so that the output parses back into the same tree of fields.',
     ['inputs', 'configurations'],
     'all messages up to field values: every combination of absent and present fields, lengths 0..2, nested templates; consecutive messages',
     'Scope errors need optional groups, bare elements or nested messages in a particular combination that no test template has.',
     SE, [('scopes (v1)', 'fast_encoder.cpp: visit, encode_segment'), ('scopes (v2)', 'fast_encoder_core.h: encode_field for group/sequence/nested')],
     tech=SW, note=SWNOTE)

prop('C09', 'Each message is coded with the template it identifies',
     'A template id is transmitted exactly when it differs from the active one, a message is decoded with the template so identified, unknown ids '
     'raise D9 in all coders, and the dictionary is reset exactly when a template, nested ones included, or the caller asks for it.',
     ['inputs', 'histories', 'configurations'],
     'all sequences of up to three messages over the templates of the driver, nested ones included, known and unknown ids',
     'Tests send one or two messages of a single template; the active template is state carried over messages and nesting.',
     SD + SE, [('template identification', 'decode_segment / encode_segment; fast_decoder_core.h: decode_segment')], tech=SW, note=SWNOTE)

prop('M02', 'Messages release every buffer once, whatever they were filled with',
     'Filling, copying, refilling, decoding into and destroying a message releases each buffer allocated for it exactly once to the allocator '
     'it came from, leaves no other reference to it and never constructs or destroys a field twice.',
     ['inputs', 'histories', 'configurations'],
     'all messages up to field values (presence, lengths 0..2, nesting), copied, refilled with any other message and destroyed; both decoders',
     'Leaks and double releases depend on what the message held before; the tests neither count allocations nor refill with differing structure.',
     ['src/mfast/instructions/aggregate_instruction.cpp', 'src/mfast/instructions/sequence_instruction.cpp', 'src/mfast/sequence_ref.h', 'src/mfast/message_ref.h',
      'src/mfast/nested_message_ref.h', 'src/mfast/vector_ref.h'] + SD[:2],
     [('life cycle', 'group/sequence/templateref instruction construct_value, destruct_value, copy_construct_value')], tech=SW, note=SWNOTE)

DT = 'static analysis: path-partitioned abstract interpretation of the LLVM IR of codec construction over symbolic templates against the FAST scoping rules'
DNOTE = ('Strings are abstracted to their identity, split on demand; std::string modelled by parts, std::map interpreted (red-black balancing left out). '
         'Trusted: clang lowering, the IR interpreter, the rules in vf/dict.py.')
DF = ['src/mfast/coder/common/dictionary_builder.cpp', 'src/mfast/coder/common/dictionary_builder.h', 'src/mfast/coder/common/template_repo.h']

prop('C10', 'Fields share a previous value exactly when FAST scoping says so',
     'Two operators use the same previous value exactly when their dictionary, its template or type scope and their qualified key are the same, where '
     'dictionary and namespace are inherited from the innermost enclosing element (a sequence for its length included) and the key defaults to the field '
     'name; exponents, mantissas and unnamed lengths have keys of their own.',
     ['inputs', 'configurations'],
     'two fields anywhere in groups and sequences of one or two templates and descriptions; every combination of present and equal names per rule',
     'A key built from the wrong scope only shows between particular fields of templates with particular namespaces; the sample templates have none.',
     DF, [('keys', 'dictionary_builder.cpp: get_dictionary_storage, build_group, clone_instruction, visit(sequence)')], tech=DT, note=DNOTE)

prop('C11', 'Every field has the presence map bits its operator and presence demand',
     'A field occupies the number of presence map bits FAST prescribes for its kind, operator and presence (a decimal with operators on exponent and mantissa '
     'one for each), however the instruction was built, changed or copied, and a segment reserves room for the sum over its fields.',
     ['configurations'],
     'all kinds, operators, presences, inner operators; built, changed in either order, copied into a codec beside other fields',
     'Both coders agree on a wrong bit count; the reservation matters only when bits cross a byte boundary.',
     ['src/mfast/instructions/field_instruction.h', 'src/mfast/instructions/decimal_instruction.h', 'src/mfast/instructions/group_instruction.cpp',
      'src/mfast/instructions/sequence_instruction.cpp'],
     [('bits', 'field_instruction.h: update_invariant, pmap_size; decimal_instruction.h'), ('reservation', 'group_instruction.cpp: set_subinstructions')],
     tech=DT, note=DNOTE)

prop('C12', 'Dictionary entries are typed, reset together, private to a codec and released',
     'Fields of different types that name the same entry are rejected with D4, operators that do not use previous values share none, a dictionary reset makes '
     'every entry undefined, codecs built from the same templates never share entries with each other or the templates, and destroying a codec '
     'releases the strings its entries hold exactly once.',
     ['inputs', 'histories', 'configurations'],
     'pairs of all field kinds and operators naming the same or different entries, one or two codecs, reset and destruction',
     'Cross-talk needs two codecs or a reset between messages and a field whose entry was forgotten; a leak goes unnoticed.',
     DF + ['src/mfast/instructions/int_instructions.cpp', 'src/mfast/instructions/string_instructions.cpp'],
     [('types and reset', 'dictionary_builder.cpp: get_dictionary_storage; template_repo.h: reset_dictionary, destructor'), ('copies', 'instructions: clone')],
     tech=DT, note=DNOTE)

VF = ['src/mfast/vector_ref.h', 'src/mfast/string_ref.h', 'src/mfast/instructions/vector_instruction_base.cpp', 'src/mfast/instructions/string_instructions.cpp']
VT = ('Abstract interpretation of the LLVM IR of every operation with symbolic elements over enumerated storages (absent, owned, borrowed, at and below '
      'capacity), compared with the sequence of elements the operation promises')
prop('M03', 'String and vector fields behave as the sequence of elements they hold',
     'Every operation of string, byte vector and integer vector fields (resize, reserve, insert, replace, append, assign, push_back, swap, as, omit, copies, '
     'comparison) leaves exactly the elements and presence it promises, wherever the storage comes from. A field never writes to elements it only refers to, '
     'never reads or writes outside its storage, and releases storage it owns exactly once.',
     ['inputs', 'histories'],
     '7 element types, 20 kinds of storage, every position and small counts including those that exceed the capacity',
     'Capacity limits, borrowed storage and fields absent but still owning storage are states tests rarely set up, and overruns by one byte do not show.',
     VF, [('operations', 'vector_ref.h: vector_mref_base; string_ref.h'), ('copies', 'string_instructions.cpp, vector_instruction_base.cpp: copy_construct_value')],
     tech=VT, note='Sizes and spare capacities are enumerated up to 8 (quick: 5); arguments that alias the field are not considered.')

prop('M04', 'Allocators hand out disjoint, aligned blocks of the promised size',
     'Whatever the history of requests, a block from malloc_allocator or arena_allocator is at least as large as promised, suitably aligned, disjoint from every '
     'other live block, and keeps its content when reallocated; a request that fails leaves everything as it was; a reset makes all memory of an arena available again, so repeated histories stop claiming more, and destruction returns all memory to the system exactly once.',
     ['histories', 'inputs'],
     'histories of up to 6 requests with sizes around every limit the allocators compare with',
     'Overlap or growth without end needs a particular order of sizes near the end of a chunk.',
     ['src/mfast/arena_allocator.cpp', 'src/mfast/arena_allocator.h', 'src/mfast/malloc_allocator.cpp', 'src/mfast/allocator_utils.h'],
     [('arena', 'arena_allocator.cpp'), ('malloc', 'malloc_allocator.cpp')],
     tech='Abstract interpretation of the LLVM IR of the allocators over histories of requests with a symbolic heap, against the allocator contract',
     note='Histories are bounded (3 requests over all sizes, 5-6 over the critical ones).')


AT = ('Abstract interpretation of the LLVM IR of groups, sequences, nested messages and message values over histories of operations, with symbolic contents and '
      'storage tracked block by block, against a model of plain values')
prop('M05', 'Groups, sequences and messages behave as containers of their fields',
     'Every operation on a sequence (resize, reserve, grow, clear, omit, assign, as, swap, element access, iteration in both directions), a group, a nested message or a '
     'whole message leaves exactly the elements, the presence and the values it promises, however the elements are defined. Copies and moved values own what they '
     'hold: neither changes nor frees what another one shows, and all storage is released exactly once.',
     ['inputs', 'histories'],
     '9 ways to define a sequence, up to 5 elements with symbolic contents, histories of up to 3 operations on groups and nested messages, 4 kinds of values',
     'Stale elements, capacities that are no multiple of an element, self assignment and moved-from values are states tests rarely set up.',
     ['src/mfast/sequence_ref.h', 'src/mfast/sequence_ref.cpp', 'src/mfast/aggregate_ref.h', 'src/mfast/group_ref.h', 'src/mfast/nested_message_ref.h',
      'src/mfast/composite_type.h', 'src/mfast/sequence_type.h', 'src/mfast/instructions/sequence_instruction.cpp',
      'src/mfast/instructions/group_instruction.cpp', 'src/mfast/instructions/templateref_instruction.cpp', 'src/mfast/instructions/template_instruction.cpp'],
     [('sequences', 'sequence_ref.h: make_sequence_mref, sequence_iterator; sequence_ref.cpp'), ('storage', 'sequence_instruction.cpp, group_instruction.cpp'),
      ('values', 'composite_type.h, sequence_type.h')],
     tech=AT, note='Sizes are enumerated up to 3 (thorough: 5); ranges that alias the sequence they are assigned to are not considered.')

prop('M06', 'Equality of messages and fields means equal content',
     'Two fields, groups, sequences or messages compare equal exactly when the same fields are present in both and hold the same values, whatever either held before, '
     'however its storage is laid out and whichever side it is on; != is its negation. Comparing fields of different types, absent aggregates or unbound '
     'template references is safe and finds them unequal to anything else.',
     ['inputs', 'histories'],
     'every field type, mandatory and optional, over pairs of states (constructed, omitted, values differing in one element, bit or length), and whole messages with one difference',
     'Presence, stale content and mixed types only matter in combinations that tests do not enumerate.',
     ['src/mfast/field_comparator.h', 'src/mfast/field_visitor.h', 'src/mfast/vector_ref.h', 'src/mfast/string_ref.h', 'src/mfast/int_ref.h', 'src/mfast/decimal_ref.h', 'src/mfast/enum_ref.h'],
     [('fields', 'field_comparator.h: operator==(field_cref, field_cref)'), ('messages', 'field_comparator.h: field_comparator::compare')],
     tech='Abstract interpretation of the LLVM IR of the comparison over pairs of states of fields and messages, against equality of the values they stand for',
     note='The values that differ are enumerated; decimals are compared by mantissa and exponent, as documented by their own operator.')


prop('M07', 'Numeric fields hold the number that was stored in them',
     'An integer, decimal, exponent, mantissa, enum or boolean field that is set to a number is present with exactly that number, whatever it held before and however it is set '
     '(directly, from another field, through the interface for fields of any type); omitting, resetting to the initial value, copying, comparing and asking whether it '
     'is the initial value agree with it. Setting one part of a decimal leaves the other alone, normalizing keeps the value, and setting a field to something '
     'that is no number is refused without changing it; a value without a name in its enumeration has none.',
     ['inputs', 'histories'],
     'every numeric kind, mandatory and optional, with and without initial value, over histories of set, omit, reset, copy and compare, with values at every limit',
     'Stale storage, limits of the types and decimals with separate operators only matter in combinations that tests do not enumerate.',
     ['src/mfast/int_ref.h', 'src/mfast/decimal_ref.h', 'src/mfast/enum_ref.h', 'src/mfast/boolean_ref.h', 'src/mfast/field_mref.h', 'src/mfast/instructions/decimal_instruction.cpp', 'src/mfast/instructions/int_instructions.h', 'src/mfast/instructions/enum_instruction.h'],
     [('integers', 'int_ref.h: int_mref'), ('decimals', 'decimal_ref.h: decimal_mref::normalize'), ('any type', 'field_mref.h: field_mref::as')],
     tech='Abstract interpretation of the LLVM IR of the interface of numeric fields over states of their storage, against a plain optional number',
     note='Values are enumerated at and around the limits of each type; conversions from floating point numbers, decimal numbers of boost and text are out of scope.')


prop('J01', 'JSON encoding renders exactly the content of a message',
     'json::encode writes one well-formed JSON value holding exactly the present fields (those not masked out) of the message in order: every character of a '
     'string escaped as JSON requires, every byte of a byte vector as two hexadecimal digits, decimals digit for digit, and elements separated by single commas; '
     'nothing outside the storage of a field is read.',
     ['inputs'],
     'all values of numbers, characters and bytes as symbols; strings up to 9 characters, byte vectors up to 17 bytes, decimals with 1 to 19 digits over 17 exponents, sequences up to 3 elements, nesting up to 3',
     'Escapes, NUL bytes, borrowed storage, leading zeros of bytes and separators depend on values and combinations tests do not sample.',
     ['src/mfast/json/json_encode.cpp', 'src/mfast/value_storage.cpp', 'src/mfast/field_visitor.h', 'src/mfast/json/json.h'],
     [('JSON encoder', 'json_encode.cpp'), ('decimal text', 'value_storage.cpp')],
     tech='Abstract interpretation of the LLVM IR of the JSON encoder over symbolic messages with the text of every path compared with a rendering of the content',
     note='Formatting flags the caller left on the stream are taken to be the default ones; std::ostream is modelled.')

prop('J02', 'JSON decoding gives the fields named the values denoted, or an error',
     'json::decode gives each field named in well-formed JSON text the value the text denotes, leaves every other optional field absent, skips unknown members whatever '
     'they hold, and gives arrays exactly their elements. Text that is malformed, cut off at any point, or denotes a value a field cannot hold ends in an error, '
     'never in a silently different value or a memory error.',
     ['inputs'],
     'symbolic numbers and characters, every escape and class of surrogates, arrays up to 3 elements, a catalogue of malformed texts and every proper prefix of representative texts',
     'Escapes, surrogates, truncation at every point, unknown members and reuse of messages combine in ways tests do not sample.',
     ['src/mfast/json/json_decode.cpp', 'src/mfast/value_storage.cpp', 'src/mfast/json/json.h', 'src/mfast/field_instructions.cpp'],
     [('JSON decoder', 'json_decode.cpp'), ('decimal text', 'value_storage.cpp')],
     tech='Abstract interpretation of the LLVM IR of the JSON decoder over classes of texts with symbolic items, the resulting content compared with the value denoted',
     note='Texts are the catalogue in vf/js.py with symbolic items; std::istream is modelled; digits of fractions are concrete.')

prop('X01', 'Loading templates builds exactly the instructions the document prescribes',
     'A dynamic_templates_description loaded from a valid template document holds one instruction per template and field, nested as in the document, each with the type, '
     'presence, id, name, namespace, operator, key, dictionary, initial value, length and enumeration elements that its element, its defined type or the defaults of FAST 1.1 '
     'prescribe, and template references resolve by name and template namespace. Documents with an unknown type or reference, or with an id or initial value that the type '
     'cannot hold, are refused with an error, and no document leads to a memory error.',
     ['inputs'],
     'a catalogue of documents over every type, operator, presence, context and nesting construct, with symbolic ids, integer values and characters of strings',
     'Types, operators, contexts, definitions and namespaces combine freely; tests load a few fixed documents and mostly look at what is coded, not at what was built.',
     ['src/mfast/xml_parser/field_builder.cpp', 'src/mfast/xml_parser/field_op.cpp', 'src/mfast/xml_parser/templates_builder.cpp', 'src/mfast/xml_parser/fast_xml_attributes.h'],
     [('fields', 'field_builder.cpp'), ('operators', 'field_op.cpp'), ('templates and registry', 'templates_builder.cpp')],
     tech='Abstract interpretation of the LLVM IR of the template loader over an abstract document, the description built compared with the one prescribed',
     note='Documents are the catalogue in vf/tmpl.py with symbolic values; the XML parser itself (tinyxml2) is out of scope.')

prop('V01', 'A view yields the first present reference of each of its fields',
     'Iterating over a view of a message yields one field reference for each field of the <view> element that has references, in order: the message field named by the first '
     'of its references that is present, however deep in groups and sequence elements, or an absent one if none is. This holds whatever references precede it and whatever '
     'parts of the message are absent or elements missing; a view that names fields or templates that do not exist is refused.',
     ['inputs'],
     'one template with groups and sequences nested in each other, every view of one or two references and pairs of fields over 28 paths (thorough: every view of three over 12 paths), '
     'messages with one thing missing; numbers symbolic',
     'The iterator keeps the path of earlier references; what it yields depends on combinations of references and absent parts, and the tests use one view on one message.',
     ['src/mfast/view_iterator.cpp', 'src/mfast/view_iterator.h', 'src/mfast/xml_parser/view_info_builder.cpp'],
     [('view iterator', 'view_iterator.cpp'), ('view builder', 'view_info_builder.cpp')],
     tech='Abstract interpretation of the LLVM IR of the view builder and iterator, the fields yielded compared with the references resolved by name',
     note='Views in generated code hold the same tables, written by fast_type_gen, which is not interpreted.')


prop('T01', 'Codecs and messages used by different threads share nothing they modify',
     'Threads that each use their own codecs, messages and JSON conversions, built from the same templates or not, do not influence each other: no operation '
     'modifies an object with static storage after its initialisation, nor an instruction, operator, description or default value they have in common.',
     ['schedules', 'histories'],
     'every function of the libraries and every object with static storage; every path of the operations of messages, numeric fields and JSON conversion',
     'The tests use one thread; a shared buffer or cache goes wrong only when two threads meet in it.',
     ['src/mfast', 'src/mfast/coder', 'src/mfast/json'],
     [('shared operators', 'decoder_field_operator.cpp, encoder_field_operator.cpp'), ('default values and instructions', 'src/mfast/instructions'),
      ('allocator', 'malloc_allocator.cpp: instance')],
     tech='Static analysis: interprocedural effect (mod) analysis of the LLVM IR over all objects with static storage and shared classes, with once-only '
          'initialisation regions; abstract interpretation of message operations watching stores to static storage',
     note='Writes through pointers loaded from memory are covered by the interpreted operations and, for dictionaries, by C12; writes under a lock are counted as undecided.')

prop('G01', 'Generated types describe the same templates as loading them at run time',
     'For every valid template document, the source that the type generator writes compiles, and its descriptions equal, instruction by instruction, those '
     'which loading the document at run time yields.',
     ['programs', 'inputs'], 'every valid template document', 'The tests generate code for a handful of documents.',
     ['src/fast_type_gen'], [('generator', 'inl_gen.cpp, hpp_gen.cpp, cpp_gen.cpp')],
     na='The property is about a program text that exists only after running the generator and that has to be compiled in turn: deciding it means executing '
        'the generator, which is testing; no static argument over the sources of the generator in reach relates the text it prints to the meaning of that text.')

prop('S01', 'The SQLite converter stores each present field in its own column',
     'Inserting a message adds one row per message and sequence element, with each present field in its own column and NULL for absent ones, linked to the row of the parent.',
     ['inputs'], 'every message of every template', 'The tests insert one message.',
     ['src/mfast/sqlite3'], [('converter', 'converter_core.cpp, tables_creator.cpp')],
     na='What is stored is decided by SQLite executing the statements that the converter assembles as text; the meaning of those statements is outside what can be '
        'derived statically from the sources here.')

prop('P01', 'Coding keeps up with the rates it is used for',
     'Encoding and decoding take time proportional to the size of the message and allocate nothing in the steady state.',
     ['inputs', 'histories'], 'every stream of messages', 'Benchmarks measure a handful of messages on one machine.',
     ['src/mfast/coder'], [('codecs', 'fast_decoder.cpp, fast_encoder.cpp')],
     na='Time and steady-state allocation are run-time quantities that depend on message sizes and histories without bound; no sound static bound is in reach.')
