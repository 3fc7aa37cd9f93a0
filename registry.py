"""What each check runs: harness module, protocol variants, engine options, stated bounds.

spec_only: entries (regular expression) over code that does not depend on the protocol variant;
in the quick tier they run for the first variant only."""
VARIANTS = ["spec", "subiot", "wizzilab"]
NOT_APPLICABLE = {}
PROPS = {
    "C01": dict(
        module="c01",
        spec_only=r"h_c01_(text|long|long_file|offset_far|phy|phy_long|profile|profile_file|background|slice)$",
        bounds="actions of up to 8 bytes, of up to 46 bytes for operations with long operands, commands of up to 4 bytes, "
               "files of up to 75 bytes under every file id and any announced size, parts of up to 24 bytes, link/network/"
               "transport frames of up to 10 bytes, bit offsets up to 26, byte offsets around 127 to 129, 255, 256, 300 and 8192; long operands (62 to 300 "
               "bytes and 255 channel entries, fixed but for their ends) with one byte replaced or cut",
        outside="longer inputs with several variable-length operands; allocation failure; known finding: the readers deku derives for components "
                "panic when asked to start more than 128 bytes into a buffer"),
    "C02": dict(
        module="c02",
        spec_only=r"h_c02_(numbers|text|lora|query|sizes|numbers_in_structures|file_data)$",
        bounds="all numbers unconstrained; variable data 0 to 2 bytes (keys of up to 18 bytes, texts of up to 9 characters), and of 85, 86, "
               "255, 256 and 300 bytes or entries, fixed but for one byte",
        outside="longer data; the identifier-to-number conversions of identifiers without a fixed number (listed in DESIGN.md)"),
    "C03": dict(
        module="c03",
        spec_only=r"h_c03_(query|raw|bytes_query|bytes_file|bytes_sys_file|bytes_text|bytes_profile|file|bytes_read)$",
        bounds="all actions with operands of 0 to 2 bytes and all other fields free; all inputs of up to 8 bytes; commands of "
               "3 actions; parts of up to 15 bytes; files of their full size; operands of 62, 63, 64, 128, 255, 256, 257 and 300 bytes, "
               "fixed but for their ends",
        outside="longer data; an interface status of an interface type other than host, serial and Dash7 (known finding, C05)"),
    "C04": dict(
        module="c04",
        spec_only=r"h_c04_(query|raw|file)$",
        bounds="all actions with every value of every field, operands of 0 to 2 bytes; operands of 62 to 64, 128, 255 to 257 and 300 bytes, "
               "fixed but for their ends",
        outside="longer data"),
    "C08": dict(
        module="c08", variants=["spec"],
        bounds="all 2^32 numbers, all inputs of up to 5 bytes; alone and in pairs inside an action",
        outside="conversion from machine-word sizes of 2^32 and more, which wraps (DESIGN.md); the codec is the same code in all variants"),
    "C09": dict(
        module="c09", variants=["spec"],
        bounds="all 2^32 numbers, both directions, all bytes",
        outside="nothing; the codec is the same code in all variants"),
    "C05": dict(
        module="c05",
        spec_only=r"h_c05_(query|break_query|bitmap|search|file|read|raw_file|sys_file|text_file|profile_file|profile|forward_lora|wide|command_lengths)$",
        bounds="all inputs of up to 8 bytes per operation (10 for reads, 9 for bitmap and search queries), of the full size for "
               "operations, configurations, statuses, files and addressees with fixed-size operands, where enumerated parts "
               "vary one at a time; commands of up to 3 bytes (thorough: 4); operands of "
               "64, 255 and 300 bytes, whole, cut by a byte and followed by one",
        outside="longer variable operands; two known findings: structured data under a wrong announced length, and the type of "
                "an unknown interface's status, which is lost"),
    "C06": dict(
        module="c06",
        entry_opts=[(r"_long$", ["--max-steps", "1000000000"])],
        spec_only=r"h_c06_(query|long|later|stream|raw|sys_file|file|raw_file)$",
        bounds="every kind of action, file and component with operands of 0 to 2 bytes, 0 to 2 bytes before and after it; all inputs of up to 6 bytes; "
               "items of up to 8192 bytes; seven shapes of actions up to 8192 bytes into a buffer with up to 300 bytes behind, and in a "
               "row from a stream that gives a byte at a time",
        outside="start positions that are not multiples of 8 bits (known finding)"),
    "C07": dict(
        module="c07",
        entry_opts=[(r"_(very_long|longest)$", ["--max-steps", "30000000000"])],
        spec_only=r"h_c07_(query|raw|sys_file|very_long|long_.*|error|announced|last)$",
        bounds="all triples of nine short action shapes; every kind of action with all its fields between two others; up to 300 "
               "actions of fixed shape with free contents, 5000 (thorough: 70000) fixed ones; unassigned opcodes and cut actions after up to two others",
        outside="longer mixed sequences; an announced command size when the command does not start the stream (DESIGN.md)"),
    "C10": dict(
        module="c10", entry_opts=[(r"_huge$", ["--max-steps", "30000000000"])],
        spec_only=r"h_c10_(huge|file|write|write_flush|value|search|zero|other|bitmap|phy_status|row)$",
        bounds="data, masks and values of 0, 1, 2, 3, 4, 62, 63, 64, 65, 127, 255 and 256 bytes (the sizes at which the length "
               "changes its form), all with free contents; of 65535, 65536 and 70000 bytes fixed but for the ends; "
               "thorough: also 4096 and 16382 to 16385 bytes free, 4194303 and 4194304 fixed",
        outside="other sizes; structured data under a wrong announced length (known finding, C05)"),
    "C11": dict(
        module="c11",
        spec_only=r"h_c11_(query|query_long|raw|raw_long|sys_file|file|profile_file|raw_file)$",
        bounds="every kind of action, query, file and component with operands of 0 to 2 bytes, cut at every position; file data of 3, 8, "
               "63, 64 and 70 bytes, cut at the ends of every field; operands of 64, 255, 256 and 300 bytes cut in eight places",
        outside="longer operands"),
    "C12": dict(
        module="c12",
        spec_only=r"h_c12_(none|far)$",
        bounds="commands of up to 3 actions over all kinds, of 4 over four kinds, in every order, with all fields free; every kind between two "
               "tags or statuses; tags and statuses behind up to 300 other actions",
        outside="longer commands"),
    "C13": dict(
        module="c13",
        spec_only=r"h_c13_",
        bounds="every structured file with all fields free (access profiles: enumerated fields one at a time), every text length, "
               "0 to 3 channel entries, and up to 255 fixed but for the ends; characters of 1 to 4 bytes; other files of 0 to 8 bytes, and of up to "
               "1000 fixed but for the ends (thorough: 8 entries, 300 bytes)",
        outside="more channel entries with all fields free (above 255 the count wraps, DESIGN.md); over-long texts, which are cut"),
    "C14": dict(
        module="c14",
        spec_only=r"h_c14_lora$",
        bounds="all combinations of address, security, group condition and every field; Dash7 configurations with every addressee "
               "and, separately, every quality of service and timeout",
        outside="LoRaWAN keys of a length other than the prescribed one"),
    "C23": dict(
        module="c23", variants=["spec"],
        bounds="every kind, flag and comparison with operands of 0 to 4 bytes and unconstrained numbers; operands of 5 to 1000 bytes "
               "in 16 sizes, fixed but for the ends except 63 and 64; queries in all three actions",
        outside="other operand sizes; the code is the same in all variants"),
    "C24": dict(
        module="c24",
        spec_only=r"h_c24_(chunks|frame.*|command.*|kinds|later|two|seek.*|write_command|write_query|key|action_query|action_simple)$",
        bounds="one fault at every byte of an item and right behind it, once or for good, of two kinds (six for single actions); the same for seeking, "
               "counted; pieces of 1 to 3 bytes with up to 3 interruptions; sinks and slices with room for 0 to n+1 bytes; every kind of action, every "
               "component, commands of up to 2 actions of eight shapes, frames with three commands; contents fixed except for simple actions, forwards, statuses and queries",
        outside="several different faults in one decoding; streams that lie about positions"),
    "C25": dict(
        module="c25", variants=["spec"],
        bounds="every kind of action with fixed contents and all inputs of up to 4 bytes (commands: 2), each before and after ten kinds of intermediate "
               "operations (decoding valid, cut and invalid bytes, refused encodings, refreshing, copying, conversions); histories of two of "
               "them; 300 repetitions; frames with a command, whole and cut; equality for all pairs of values of each kind with operands of up to 2 bytes",
        outside="histories of other operations; several threads (nothing in the library is shared between them)"),
    "C19": dict(
        module="c19",
        spec_only=r"h_c19_(command|command_length|length|query|query_action|announced_query|file|structured|phy_status|many|long|frame)$",
        bounds="all inputs of up to 8 bytes per operation (7 for query operations), commands of up to 4 bytes; operations that announce any length up to 2^30-1 "
               "in its longest form, before up to 3 bytes, alone and second in a command; files of every number under any announced "
               "length; all kinds of actions with free fields; items of up to 300 bytes; commands of up to 3000 actions; frames of up to 6 bytes and "
               "ones that announce any length. "
               "Allowed at any time: 1024 bytes per byte of input and 64 KiB more than before",
        outside="memory used by encoding; memory in proportion that is more than necessary"),
    "C15": dict(
        module="c15",
        spec_only=r"h_c15_(length|varint|class|read_.*|file_offset|non_void.*|zero|value|other.*|bitmap|search.*|channel_index|profile|fits|noise)$",
        bounds="every field narrower than its Rust type, one at a time, with every value of it; alone, in its structures, in actions and commands",
        outside="several too large numbers at once; texts (cut, DESIGN.md); more than 255 channel entries (known finding)"),
    "C16": dict(
        module="c16",
        spec_only=r"h_c16_(zero|value|value_mask|search_mask|other|bitmap|search.*|long_.*|phy_status.*)$",
        bounds="all operand sizes from 0 to 3 bytes before and after the change, 62 to 300 bytes in 9 sizes fixed but for the ends; masks and values of different sizes; all pairs of address and "
               "security kinds; 0 to 3 channel entries and up to 255 fixed ones; decoded inputs of up to 8 bytes",
        outside="the lengths of file comparison and bitmap queries, which are free operands in this implementation; updating an action as a whole, "
                "which refreshes nothing by design of the code"),
    "C20": dict(
        module="c20",
        spec_only=r"h_c20_(file_.*|interface_.*|status_code|status_names|status_kind|opcode_names|query.*|raw|stale_opcode|address|band|class|coding|bandwidth|csma|condition|storage|retry|response|status_type|comparison|chunk_logic|permission|profile_id)$",
        bounds="every number of every enumeration and identifier; every kind of action with all fields free; all inputs of 16 bytes for opcodes",
        outside="turning identifiers without a number of their own back into a number (known finding)"),
    "C21": dict(
        module="c21", opts=["--no-print"],
        spec_only=r"h_c21_(query|raw|long_command|parts|numbers|ids|transport|file_bytes)$",
        bounds="every kind of action with all fields free; all inputs of up to 5 bytes for actions, 3 for commands, 12 for parts, "
               "17 for files, 8 for frames; refused values and inputs; bit offsets up to 25; operands of 64 and 300 bytes; commands of up to 258 actions",
        outside="longer inputs"),
    "C26": dict(
        module="c26", extra=[("utils", "c26u")],
        spec_only=r"h_c26_(query.*|frame.*|file|structured|profile|often|long|command_cut)$",
        bounds="actions, forwards and parts of up to 5 bytes, queries of up to 6, commands of 3, frames of up to 6; every kind of action and of file cut "
               "at any place, a foreground frame of three actions cut anywhere, structured files cut at five places, values an operation refuses; a second and a third run against "
               "the first, 20 runs of one command, files of 64 and 300 bytes; arrays of four elements that own memory, "
               "with any content and any length",
        outside="longer inputs; what a process keeps that it allocated in the first run only"),
    "C22": dict(
        module="c22", opts=["--real-format"],
        spec_only=r"h_c22_(far|long)$",
        bounds="commands of up to 3 actions (thorough: 4) over seven kinds in every order with free tags; every kind of action "
               "followed by an interface status; Dash7 statuses with one or two bytes free "
               "(text executed), and each value of it with any content; all decoded commands of up to 3 bytes; up to 103 actions; data of up to 300 bytes",
        outside="several interface statuses in one command (which one is shown is left open); the words between the parts"),
    "C17": dict(
        module="c17", opts=["--real-format"],
        spec_only=r"h_c17_(background.*|hopping|transport_.*|ack_template)$",
        bounds="background frames: all bytes, all sizes up to 8; control fields: all values; transport frames: every combination of "
               "flags with up to two bytes of command; network and foreground frames: one field at a time, and network frames of 5 "
               "and 6 bytes; foreground frames with commands of two actions, of up to 100 actions and of up to 300 bytes; private fields are read from their debug text",
        outside="transport frames that start on a byte, network frames of the wizzilab variant and foreground frames whose length "
                "counts all bytes after it, which the implementation cannot decode (known finding)"),
    "C18": dict(
        module="c18", variants=["spec"], opts=["--real-format"],
        bounds="all ASCII texts of up to 3 characters; four digits separated by 14 kinds of text in 5 places; digits for up to 19 "
               "and 15 sizes up to 513 bytes; commands of up to 130 actions or bytes; every kind with examples of which one byte is free; every file number with six sizes; names of kinds of up "
               "to 3 characters and one changed letter in longer ones",
        outside="the text of a security key file (128 bit decimal); the process exit code and the argument parser around parse::main"),
}
