import json
V="all three protocol variants (spec, subiot, wizzilab)"
def p(id,title,st,qtext,why,files,mech,over=("inputs",),obs=(),state=()):
    return dict(id=id,title=title,statement=st,quantifier=dict(over=list(over),text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(obs),state=[dict(name=a,meaning=b,where=c) for a,b,c in state],hook_needed=None))
D="dash7/src/"
ALL=[
p("C01","Decoding arbitrary bytes never panics and never reads out of bounds",
 "Decoding any byte sequence as a command, an action, a query, an addressee, a file, an interface configuration or status, or any other structure of the protocol returns either a value or an error. It never panics, never overflows arithmetic, never loops without end, and never touches memory outside its buffers, in every protocol variant.",
 "every byte string up to the stated sizes, through every public decoder, in "+V,
 "The tests decode a few dozen well-formed items; hostile, truncated and oversized inputs are never fed in, and the set of inputs is unbounded.",
 [D+"app/command.rs",D+"app/action.rs",D+"app/operation/mod.rs",D+"app/query.rs",D+"app/interface.rs",D+"file/mod.rs",D+"types.rs",D+"network/addressee.rs",D+"transport/mod.rs",D+"link/mod.rs"],
 [("command decoding loop",D+"app/command.rs"),("opcode dispatch",D+"app/action.rs"),("length, compressed number and query readers",D+"app/operation/mod.rs, "+D+"types.rs, "+D+"app/query.rs")],obs=["return value of the decoders"]),
p("C02","Encoding, updating and converting any value never panics",
 "Encoding any value that can be built through the public API, refreshing its derived fields, and converting between the public types returns a result or an error. It never panics, whatever the field values.",
 "every value of every public structure within the stated operand sizes, in "+V,
 "Tests only encode values they chose to be encodable; values whose numbers do not fit their fields are never tried.",
 [D+"app/action.rs",D+"app/command.rs",D+"app/operation/mod.rs",D+"app/query.rs",D+"types.rs",D+"file/mod.rs",D+"network/addressee.rs",D+"session/mod.rs"],
 [("deku writers and update methods",D+"app/*.rs"),("VarInt::compress",D+"types.rs"),("Length writer",D+"app/operation/mod.rs")],obs=["return value of to_bytes, update and try_from"]),
p("C03","Encoding and decoding are inverse",
 "Decoding the encoding of a command, action or component gives back an equal value and leaves nothing over. Encoding a decoded item and decoding it again gives the same value and the same bytes.",
 "every encodable value and every decodable byte string within the stated sizes, in "+V,
 "The round trips in the tests cover one fixed value per operation; equality must hold for all field values and all combinations of optional parts.",
 [D+"app/action.rs",D+"app/operation/mod.rs",D+"app/query.rs",D+"app/interface.rs",D+"network/addressee.rs",D+"types.rs",D+"file/mod.rs"],
 [("derived readers and writers share one description",D+"app/operation/mod.rs"),("hand-written reader/writer pairs",D+"app/operation/mod.rs, "+D+"types.rs, "+D+"app/query.rs")],obs=["bytes and values returned"]),
p("C04","Every action has exactly the wire layout the protocol prescribes",
 "The bytes of an action are its opcode with the two flag bits in front, followed by its operands in the prescribed order, widths and byte order, with reserved bits zero and lengths in their shortest form. Decoding those bytes yields the action with those operands.",
 "every action of every kind with all values of its fields, in "+V,
 "A test per operation fixes a single example; a swapped pair of fields or a wrong mask goes unnoticed when the example is symmetric or zero.",
 [D+"app/action.rs",D+"app/operation/mod.rs",D+"app/interface.rs",D+"data/mod.rs",D+"network/addressee.rs",D+"session/mod.rs",D+"physical/mod.rs"],
 [("bit and byte attributes of every structure",D+"app/operation/mod.rs"),("opcode table",D+"app/action.rs")],obs=["bytes of encoded actions","fields of decoded actions"]),
p("C05","The decoder accepts exactly the protocol's grammar",
 "An action or command is accepted exactly when its bytes follow the protocol's grammar: a known opcode, valid enumerated fields, and all operands present. What was accepted encodes back to the canonical form of the consumed bytes.",
 "every byte string up to the stated sizes, including invalid ones, compared with an independent reference reader, in "+V,
 "Tests contain almost no invalid input, so nothing shows that invalid fields are rejected and valid rare ones accepted.",
 [D+"app/action.rs",D+"app/operation/mod.rs",D+"app/query.rs",D+"app/interface.rs",D+"file/mod.rs",D+"physical/mod.rs",D+"session/mod.rs"],
 [("id dispatch of the enumerations",D+"app/*.rs, "+D+"session/mod.rs, "+D+"physical/mod.rs"),("nested readers under announced lengths",D+"app/operation/mod.rs")],obs=["acceptance and re-encoded bytes"]),
p("C06","Decoders report exactly what they consumed",
 "Decoding from a byte buffer returns as rest exactly the bytes after the item and consumes every byte of the item, also when it starts at a later byte of the buffer or is read from a stream. Conversion from a byte slice succeeds only if nothing is left over.",
 "every item and trailing bytes within the stated sizes, at every byte offset up to the stated one, in "+V,
 "The tests decode from exact buffers at offset zero and ignore the reported rest; consumption must be exact for every operand size and position.",
 [D+"app/action.rs",D+"app/command.rs",D+"file/mod.rs",D+"app/query.rs",D+"app/operation/mod.rs"],
 [("bits-read accounting of hand-written container readers",D+"app/action.rs, "+D+"app/command.rs"),("File::from_bytes",D+"file/mod.rs")],obs=["rest and bit counts returned by from_bytes and from_reader"]),
p("C07","A command is the in-order concatenation of its actions",
 "A command encodes to its actions' bytes one after the other and decodes to the actions in that order until the buffer ends or an indirect forward, which takes the rest as opaque. A malformed action anywhere makes the whole command fail, and nothing is dropped, merged or reordered however long the command is.",
 "every sequence of actions of mixed kinds up to the stated length, and long commands of short actions, in "+V,
 "Two sample commands are tested; interactions of neighbouring actions, the stop rule and errors in the middle need all combinations.",
 [D+"app/command.rs",D+"app/action.rs"],
 [("read loop and stop rule",D+"app/command.rs"),("write loop",D+"app/command.rs")],over=("inputs","programs"),obs=["Command::from_bytes, Command::to_bytes"],state=[("actions","the ordered list of actions",D+"app/command.rs")]),
p("C08","Lengths use the shortest of four forms and survive the wire",
 "Every length up to 2^30-1 is written in the shortest of the 1 to 4 byte forms with the size in the top two bits, and reading any form gives the number it spells. Larger numbers are refused instead of being truncated.",
 "all 2^32 values and all byte strings of up to 5 bytes",
 "Tests use a handful of values; the boundaries between forms and the refusal of large values need every value.",
 [D+"app/operation/mod.rs"],[("Length reader and writer",D+"app/operation/length.rs")],obs=["bytes and value of a length"]),
p("C09","Compressed numbers are decoded exactly and rounded as asked",
 "A compressed byte decodes to mantissa times 4 to the exponent. A number is encoded with the smallest exponent that can hold it and its mantissa rounded down, or up if asked; exactly representable numbers are unchanged, and numbers that are too large are refused.",
 "all 256 bytes and all 2^32 numbers, both rounding directions",
 "Tests compare a few values; off-by-one rounding and boundary exponents appear only at particular values among 2^32.",
 [D+"types.rs"],[("VarInt compress and decompress",D+"types.rs")],obs=["VarInt values, their bytes and errors"]),
p("C10","Announced lengths always equal the bytes that follow",
 "In an encoded file, status or query the announced length is exactly the number of data bytes that follow, for empty data and around every change of the length's own size. The action that follows in a command is therefore found and decoded unchanged.",
 "all contents at data sizes 0 to 4 and around 63/64, 255/256 and 16383/16384 (thorough)",
 "Tests use data of a few bytes; the length field's own width changes at sizes no test reaches.",
 [D+"app/operation/mod.rs",D+"app/query.rs",D+"app/interface.rs"],[("length fields updated from the data",D+"app/operation/mod.rs, "+D+"app/query.rs"),("variable-size length",D+"app/operation/mod.rs")],obs=["encoded bytes; the following action after decoding"]),
p("C11","Truncated input is always rejected",
 "Cutting the encoding of an action, query, file or configuration anywhere before its end makes its decoding fail. Truncation never yields a value built from bytes that are not there.",
 "every item within the stated operand sizes, cut at every position, in "+V,
 "No test truncates anything; there is a cut position for every byte of every item.",
 [D+"app/action.rs",D+"app/operation/mod.rs",D+"app/query.rs",D+"file/mod.rs",D+"network/addressee.rs"],[("readers ask for every byte",D+"app/*.rs"),("error propagation",D+"app/action.rs")],over=("inputs","fault_sequences"),obs=["error returned"]),
p("C12","Questions about a command are answered from its actions",
 "A command's request, response and tag id, whether it is the last response, and its interface status are taken from the first action of the respective kind wherever it stands, and are absent without one. The remaining actions are all actions but the interface statuses, in order, and encoding and decoding a command changes none of the answers.",
 "all commands of up to the stated number of actions of every kind with all flags, in "+V,
 "A single test asks one question of one command; positions and flag combinations are not varied.",
 [D+"app/command.rs"],[("query methods of Command",D+"app/command.rs")],over=("inputs","programs"),obs=["request_id, response_id, is_last_response and their siblings"]),
p("C13","System files have their prescribed layout and survive the wire",
 "Every structured system file encodes its fields at the prescribed positions, widths and byte order, and decoding a file's bytes under its file identifier gives back all fields. A file of any other identifier is kept as the very bytes it had.",
 "all field values of every system file, all 256 file identifiers, text fields of every length that fits",
 "Tests use one value per file, mostly with the text fields completely filled.",
 [D+"file/mod.rs",D+"file/access_profile.rs",D+"file/dll_config.rs",D+"file/dll_status.rs",D+"file/engineering_mode.rs",D+"file/factory_settings.rs",D+"file/firmware_version.rs",D+"file/phy_status.rs",D+"file/security_key.rs",D+"link/mod.rs",D+"physical/mod.rs"],
 [("File id dispatch",D+"file/mod.rs"),("structures' attributes",D+"file/*.rs"),("fixed-width strings",D+"utils.rs")],obs=["file bytes and fields"]),
p("C14","Addressees and interface configurations keep all their fields",
 "Every addressee and every interface configuration encodes each field at its prescribed bits, with the address and security state of exactly the kind announced. Decoding gives back every field, whatever combination of kinds is used.",
 "the full product of address kinds, security kinds, access classes, quality-of-service modes and timeouts, in "+V,
 "Tests cover a handful of combinations out of thousands, with few distinct field values.",
 [D+"network/addressee.rs",D+"session/mod.rs",D+"app/interface.rs",D+"link/mod.rs",D+"transport/mod.rs"],[("address and security kinds derived from the contents",D+"network/addressee.rs"),("interface dispatch",D+"app/interface.rs")],over=("inputs","configurations"),obs=["bytes and fields"]),
p("C15","Numbers that do not fit their field are refused, never truncated",
 "When a number in a value is too large for its field on the wire, encoding fails with an error. It never silently writes fewer bits, which would put a different number or a shifted structure on the air.",
 "all values of every field narrower than its type, alone and inside actions and commands, in "+V,
 "Tests only use numbers that fit.",
 [D+"link/mod.rs",D+"physical/mod.rs",D+"types.rs",D+"app/operation/mod.rs",D+"network/addressee.rs"],[("bit-width checks of writers",D+"link/mod.rs, "+D+"physical/mod.rs"),("length and compressed number bounds",D+"app/operation/mod.rs, "+D+"types.rs")],obs=["error returned by to_bytes"]),
p("C16","Refreshing a value repairs its derived fields",
 "Fields that are functions of other fields (data lengths, kind announcements, presence flags) are brought in line by the update operation whatever they held before. After it, encoding and decoding gives back the updated value, and updating again changes nothing.",
 "all contents with arbitrary stale derived fields within the stated sizes, in "+V,
 "Tests never change a value after constructing it, so stale derived fields do not occur.",
 [D+"app/operation/mod.rs",D+"app/query.rs",D+"network/addressee.rs",D+"app/interface.rs",D+"file/phy_status.rs"],[("update attributes",D+"app/operation/mod.rs, "+D+"app/query.rs, "+D+"network/addressee.rs")],over=("inputs","histories"),obs=["value after update; its bytes"]),
p("C17","Link, network and transport frames keep their layout",
 "Background frames and the control fields, identifiers, timing and security parts of network and transport frames encode at their prescribed bits and decode back to the same fields. Undefined codes are rejected.",
 "all field values, all byte strings of the frames' sizes, in "+V,
 "There are tests for few of the frame structures, each with one value.",
 [D+"link/mod.rs",D+"network/addressee.rs",D+"transport/mod.rs",D+"physical/mod.rs"],[("structures' attributes",D+"link/mod.rs, "+D+"network/addressee.rs, "+D+"transport/mod.rs")],obs=["bytes and fields of frames"]),
p("C18","The command line tool decodes exactly what it was given",
 "The parse command reads hexadecimal text with or without separators, decodes it as the structure it was asked for, and shows that structure; text that is not hexadecimal or does not decode ends with a failure instead of a wrong or partial result. Every structure on offer is dispatched to its own decoder.",
 "all texts up to the stated length and all offered structures",
 "The command line tool has no tests.",
 ["dash7-cli/src/parse.rs","dash7-cli/src/main.rs"],[("text clean-up and hex decoding","dash7-cli/src/parse.rs"),("dispatch on the requested kind","dash7-cli/src/parse.rs")],obs=["what is decoded and shown; failure"]),
p("C19","Memory used for decoding is proportional to the input",
 "While an input is decoded, the memory in use never exceeds what it was before by more than a fixed amount per byte of the input plus a constant. A length that is announced, in the input or by the caller, does not alone cause an allocation, however large it is.",
 "every input and every announced length within the stated sizes, in "+V,
 "No test measures memory, and none announces more than it carries.",
 [D+"app/operation/mod.rs",D+"app/query.rs",D+"file/mod.rs",D+"session/mod.rs",D+"session/interface_final.rs",D+"app/command.rs",D+"utils.rs"],
 [("reading announced numbers of bytes",D+"utils.rs, "+D+"app/query.rs, "+D+"file/mod.rs, "+D+"session/**"),("command decoding loop",D+"app/command.rs")],obs=["bytes allocated and not freed while from_bytes or from_reader runs"]),
p("C20","Identifiers and status codes are classified consistently",
 "Every numeric code of an operation, file, interface, status or query maps to exactly its meaning and back, for every possible number; unassigned numbers are kept or rejected as the protocol says. A status counts as an error exactly when its code is in the error range, and an operation's kind agrees with the opcode it puts on the wire.",
 "all 256 codes of every identifier type; all operations, in "+V,
 "Tests touch a few codes; a wrong or missing entry in a table of 256 is not noticed.",
 [D+"app/operation/mod.rs",D+"app/action.rs",D+"app/interface.rs",D+"file/mod.rs",D+"data/mod.rs",D+"session/mod.rs",D+"physical/mod.rs"],[("id tables",D+"app/*.rs, "+D+"file/mod.rs"),("is_err",D+"app/operation/mod.rs")],obs=["conversions and predicates"]),
p("C21","The library never writes to standard output or error",
 "Encoding, decoding, updating and converting do not write anything to the program's standard streams, for valid and invalid input alike.",
 "every input and value within the stated sizes, in "+V,
 "Test runners capture output, so a stray print passes every test.",
 [D+"utils.rs",D+"app/command.rs",D+"file/mod.rs"],[("absence of printing",D+"**")],obs=["standard output and error"]),
p("C22","The textual form of a command tells its tag, status and actions in order",
 "The display form of a command states its tag, whether it is executing or completed and with or without error, then every other action once and in order, then the interface status if there is one. The form of an interface status shows each of its values once, in the order they are transmitted. Showing a command or an interface status never fails or panics.",
 "all commands of up to the stated number of actions of every kind, in "+V,
 "No test looks at the textual form.",
 [D+"app/command.rs",D+"app/action.rs"],[("Display of Command",D+"app/command.rs")],obs=["text produced"]),
p("C23","Queries keep their operands, masks and offsets",
 "Every query encodes its kind, flags, comparison and operand lengths at the prescribed bits, with mask and value present exactly when announced, followed by the file offsets. Decoding gives back every operand, for every operand length including zero and every kind.",
 "all query kinds, flags and contents with operands of 0 to the stated number of bytes",
 "Tests use one masked example per kind; unmasked and zero-length forms are hardly covered.",
 [D+"app/query.rs"],[("query readers and writers",D+"app/query.rs")],obs=["bytes and fields of queries"]),
p("C24","Failures of a stream are reported, never taken for data",
 "When reading from a stream or writing to one fails, at whatever byte and however often, decoding or encoding ends with that failure: never with a value, and never without end. In how many pieces a stream delivers or takes the bytes, and whether it is interrupted in between, changes nothing. A buffer that is too small for an item is refused.",
 "every schedule of one fault (position, kind, once or for good), of pieces and of interruptions within the stated bounds, over every shape of action and component, in "+V,
 "The tests read from and write to memory, which never fails and never gives half of what was asked.",
 [D+"app/command.rs",D+"app/action.rs",D+"utils.rs",D+"types.rs",D+"app/operation/length.rs",D+"app/operation/mod.rs",D+"link/mod.rs"],
 [("command decoding loop, asking for the end of the stream",D+"app/command.rs"),("re-reading the header by seeking back",D+"app/action.rs"),("writers with an announced length",D+"utils.rs"),("hand-written readers and writers",D+"types.rs, "+D+"utils.rs")],
 over=("inputs","fault_sequences"),obs=["result of from_reader, to_writer and to_slice","bytes that reached the sink"]),
p("C25","Decoding, encoding and comparing depend on nothing but the item",
 "Decoding the same bytes and encoding the same value give the same result whatever was decoded, encoded, refused, refreshed or asked before, however often. Copies are equal to their original, and two values are equal exactly when their encodings are.",
 "every pair of an item and an intermediate history of the stated operations; every pair of values of a kind within the stated sizes",
 "Each test starts from a fresh process state and does one thing; what an earlier, possibly failed, operation leaves behind is never looked at.",
 [D+"app/action.rs",D+"app/command.rs",D+"utils.rs",D+"app/operation/mod.rs",D+"app/query.rs",D+"types.rs"],
 [("absence of state shared between calls",D+"**"),("equality and copies of the public types",D+"**")],over=("inputs","histories"),obs=["results of from_bytes and to_bytes","=="]),
p("C26","What decoding and encoding allocate is freed again",
 "Once a decoded value, an encoding or an error is dropped, all memory taken for it is given back: doing the same again and again, whether it succeeds, is refused or ends half-way through, does not use more memory after the second time than after the first. Nothing is freed that is still owned, or that never was.",
 "every input and every point at which it may end within the stated sizes; every kind of action and file",
 "No test looks at memory; a leak or a double free on a failing path passes all of them, and it brings a gateway down after days.",
 [D+"utils.rs",D+"app/command.rs",D+"app/action.rs",D+"app/operation/mod.rs",D+"file/mod.rs",D+"link/mod.rs"],
 [("reading arrays element by element",D+"utils.rs"),("values given up on the way",D+"app/command.rs, "+D+"app/operation/mod.rs, "+D+"file/mod.rs")],over=("inputs","histories"),obs=["bytes allocated and not freed after each run"]),
]
with open('/verif/properties.jsonl','w') as f:
    for x in ALL:
        assert len(x['title'])<=80,(x['id'],len(x['title']))
        f.write(json.dumps(x)+"\n")
