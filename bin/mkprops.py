#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that the text is easy to edit)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": " ".join(statement.split()),
              "quantifier": {"over": list(over), "text": " ".join(text.split())},
              "why_tests_cant": " ".join(why.split()),
              "anchors": {"files": list(files),
                          "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
                          "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": list(observe), "hook_needed": hook}})

prop("C01", "Received ranges are exactly the union of what was received",
 """Whatever byte ranges are added to the record of received data, in whatever order and with whatever
 repetition or overlap, the record always denotes exactly the set of bytes received so far. It is kept as the
 one list of ascending, non-empty ranges in which no two overlap or touch, so a complete transfer is the single
 range from 0 to its length. An empty or inverted range changes nothing.""",
 ["histories", "inputs"], "every finite sequence of ranges with non-negative bounds, up to the largest integer",
 "There is no test of this package; a union over all orders and overlaps cannot be sampled by a few cases.",
 ["holes/holes.go"], [("sort by start, then merge neighbours that overlap or touch", "holes.Holes.Add, optimise")],
 [("fills", "received ranges", "holes.Holes")], ["return value of Add"])

prop("C02", "Reported holes are exactly what is missing below the highest byte",
 """After any history of received ranges, the reported holes are exactly the maximal ranges of bytes not yet
 received below the highest byte received, in ascending order, and the reported number of holes is the length of
 that list. Asking for them changes nothing: the received ranges stay as they were and asking again gives the
 same answer.""",
 ["histories", "inputs"], "every finite sequence of received ranges with non-negative bounds",
 "There is no test of this package.",
 ["holes/holes.go"], [("gap before the first range and between neighbours", "holes.Holes.Getholes, Lenholes")],
 [("fills", "received ranges", "holes.Holes")], ["return value of Getholes and Lenholes"])

prop("C03", "Data frames: exact layout, lossless round trip, bad input refused",
 """A data frame built from any flags, session, offset and payload is encoded as the header, session, optional
 16-byte timestamp, offset in the descriptor's width (big-endian) and then the payload, and decoding those bytes
 gives back exactly the same header flags, session, timestamp, offset and payload. Building or encoding fails
 with an error, and never loses or truncates a value, for unknown or malformed flags, for 128-bit descriptors
 and for an offset that does not fit the descriptor. Decoding any byte string either yields the values those
 bytes denote, whatever was in the object before, or returns an error when a field is missing; it never crashes.""",
 ["inputs"], "every flag list, header word, session, offset, payload, and every byte string handed to the decoder",
 "The existing test builds a couple of frames with fixed values and prints them.",
 ["data/data.go"], [("flag parsing", "data.New, data.Make"), ("layout by descriptor and timestamp flag", "data.Encode, data.Decode"), ("copying for hand-over", "data.Val, data.Send")],
 [("Data", "header, session, timestamp, offset, payload", "data.Data")], ["encoded bytes", "decoded fields", "error results"])

prop("C04", "Status frames: exact layout, lossless round trip, bad input refused",
 """A status frame built from any flags, session, progress, in-response-to value and list of holes is encoded as
 header, session, optional 16-byte timestamp, progress, in-response-to and then every hole's start and end, all in
 the descriptor's width (big-endian), and decoding gives back exactly the same values and the same holes in the
 same order. Building or encoding fails with an error, and never truncates a value or drops a hole, for unknown or
 malformed flags, for 128-bit descriptors and for any value that does not fit the descriptor. Decoding any byte
 string either yields the values those bytes denote, whatever was in the object before, or returns an error when a
 field is missing; it never crashes.""",
 ["inputs"], "every flag list, header word, session, progress, in-response-to, list of holes, and every byte string handed to the decoder",
 "The existing test builds one frame with fixed values.",
 ["status/status.go"], [("flag parsing", "status.New, status.Make"), ("layout by descriptor and timestamp flag", "status.Encode, status.Decode"), ("copying for hand-over", "status.Val, status.Values, status.Send")],
 [("Status", "header, session, timestamp, progress, inrespto, holes", "status.Status")], ["encoded bytes", "decoded fields", "error results"])

prop("C05", "Request frames: exact layout, lossless round trip, bad input refused",
 """A request frame built from any flags, session, file name and authentication bytes is encoded as header,
 session, the file name, one zero byte and then the authentication bytes, and decoding gives back exactly the same
 values. Unknown or malformed flags and a file name containing a zero byte are refused with an error. Decoding any
 byte string either yields the values those bytes denote, whatever was in the object before, or returns an error
 when the name is not terminated or a field is missing; it never crashes.""",
 ["inputs"], "every flag list, header word, session, file name, authentication bytes, and every byte string handed to the decoder",
 "The existing test reads a configuration from a fixed path and builds one frame.",
 ["request/request.go"], [("flag parsing", "request.New, request.Make"), ("zero-terminated name", "request.Encode, request.Decode"), ("copying for hand-over", "request.Val, request.Send")],
 [("Request", "header, session, file name, auth", "request.Request")], ["encoded bytes", "decoded fields", "error results"])

prop("C06", "Metadata frames: exact layout, lossless round trip, bad input refused",
 """A metadata frame is encoded as header, session, a checksum of exactly the length its header declares, and a
 directory entry made of its flags, the file size in the entry's own descriptor width, modification and creation
 time as seconds since 2000, and the zero-terminated path; decoding gives back exactly the same values. A size
 that does not fit the entry's descriptor, a 128-bit entry descriptor and a path over 1024 bytes are refused with
 an error and never truncated. Decoding any byte string either yields the values those bytes denote, whatever was
 in the object before, or returns an error when a field is missing; it never crashes.""",
 ["inputs"], "every header word, session, checksum, directory entry, and every byte string handed to the decoder",
 "The existing test needs a file of the author's machine and samples one frame.",
 ["metadata/metadata.go", "dirent/dirent.go"], [("frame layout", "metadata.Encode, metadata.Decode"), ("directory entry layout", "dirent.Encode, dirent.Decode"), ("copying for hand-over", "metadata.Val, dirent.Copy, dirent.Value, metadata.Send")],
 [("MetaData", "header, session, checksum, directory entry", "metadata.MetaData, dirent.DirEnt")], ["encoded bytes", "decoded fields", "error results"])

prop("C07", "Beacon frames: exact layout, lossless round trip, bad input refused",
 """A beacon built from any flags, free space and endpoint identifier is encoded as header, then (only if free
 space is advertised) the free space in the smallest of 16, 32 and 64 bits whose largest value is above it, with the
 header naming that width, and then the identifier; decoding gives back exactly the same values, and a beacon that does not advertise
 free space reports zero. Unknown or malformed flags and a free space too big for that are refused with an error. Decoding any
 byte string either yields the values those bytes denote, whatever was in the object before, or returns an error
 when a field is missing; it never crashes.""",
 ["inputs"], "every flag list, header word, free space, identifier, and every byte string handed to the decoder",
 "There is no test of this package.",
 ["beacon/beacon.go"], [("flag parsing and width choice", "beacon.New, beacon.Make"), ("layout by free space flags", "beacon.Encode, beacon.Decode"), ("copying for hand-over", "beacon.Val, beacon.Send")],
 [("Beacon", "header, free space, EID", "beacon.Beacon")], ["encoded bytes", "decoded fields", "error results"])

prop("C08", "Timestamps: each type encodes its instant exactly and decodes back",
 """For each of the six timestamp types, a timestamp of any instant is 16 bytes: the type, the seconds since 1970
 (since 2000 for the Y2K type) in the type's width, the nanoseconds if the type has them, and zero padding; the
 local type carries its text. Decoding those bytes gives back the same type, seconds and nanoseconds and prints the
 same UTC time. An instant that does not fit the type, an unknown type and a short buffer are refused with an error,
 and nothing is ever wrapped or carried over from an earlier value.""",
 ["inputs"], "every instant (also before 1970, after 2106 and beyond the range of 64-bit nanoseconds), every type, every byte string",
 "The existing test prints the current time in each type.",
 ["timestamp/timestamp.go", "sarflags/sarflags.go"], [("range checks per type", "timestamp.New, Now"), ("layout per type", "timestamp.Put, Get"), ("type byte", "sarflags.SetT, GetTStr, NameT")],
 [("Timestamp", "type, seconds, nanoseconds, text", "timestamp.Timestamp")], ["encoded bytes", "Secs and Print", "error results"])

prop("C09", "Header fields sit at their protocol bits and are independent",
 """Every header field of frames, directory entries and timestamps occupies exactly the bit position and width the
 protocol gives it, so setting a field to a named option stores that option's number there and leaves every other
 bit as it was. Reading the field back gives the same number and the same name; a number without a name reads as
 the empty name. An unknown field or option is refused with an error (or reported as not valid) and changes
 nothing.""",
 ["inputs"], "every 32, 16 or 8 bit word, every field and every option name, known or not",
 "No test covers the flag package; frames tests touch a few options from an all-zero header.",
 ["sarflags/sarflags.go", "saratoga/saratoga.json"], [("field tables", "saratoga.json flags, direntflags, timestamps"), ("mask and shift", "sarflags.Set, Get, GetStr, Name, Test, SetFlags, SetD, GetD, GetDStr, NameD, TestD, SetT, GetT, GetTStr, NameT"), ("validity", "sarflags.Valid, Good, Value, ValidD, GoodD, GoodT")],
 (), ["return values"])

prop("C10", "Textual flag lists are edited and read without side effects",
 """Adding a valid flag to a textual flag list appends exactly that name=value and an invalid one leaves the list
 as it was; replacing a flag gives exactly that flag the new value, adding it if absent, and leaves every other flag
 and their order alone; looking up a flag gives its value or nothing. The list of default flags for a frame type
 holds exactly the operator's settings that apply to that frame type, each once, with their current values.""",
 ["inputs", "configurations"], "every flag list, every flag name and option, every frame type, every combination of operator settings",
 "No test covers these functions.",
 ["sarflags/sarflags.go"], [("list editing", "sarflags.AddFlag, ReplaceFlag, FlagValue, AddFlagD, ReplaceFlagD"), ("defaults per frame type", "sarflags.Setglobal, Fields, Values")],
 [("Global", "the operator's current settings", "sarflags.Cliflags")], ["returned lists"])

prop("C11", "No datagrams can kill, block or silence a running node",
 """Whatever datagrams arrive on a running node, of any content, size, number and interleaving over IPv4 and IPv6,
 from any peers, the node neither crashes nor exits nor stops receiving. After any such history a well-formed
 request on either address family is still answered.""",
 ["inputs", "schedules", "histories"], "every sequence and interleaving of datagrams on both families",
 "No test runs the node.",
 ["saratoga/saratoga.go", "trans/trans.go", "sarwin/sarwin.go"], [("listener loops and unbuffered hand-over channels", "saratoga.listen"), ("main dispatch loop", "saratoga.main"), ("decoders that return errors", "*.Decode")],
 [("rx and tx channels", "hand-over between listeners and main loop", "saratoga.main")], ["process is alive", "replies on the UDP port"])

prop("C12", "Every datagram is classified once and answered only as the protocol says",
 """A datagram shorter than 8 bytes or longer than the interface allows, a bad beacon, a bad request, and a frame of
 unknown type are dropped without an answer; well-formed beacons, data, metadata and status frames are accepted
 without an answer. A frame of another protocol version, and a data, metadata or status frame that cannot be decoded,
 is answered with exactly one status frame to its sender carrying the error code for a bad packet (10) and the
 session of the offending frame (0 for another version).""",
 ["inputs", "histories"], "every datagram in every history, on both address families",
 "No test runs the listener.",
 ["saratoga/saratoga.go"], [("size, version and type checks, decode, reply", "saratoga.listen"), ("reply goes out of the socket to the sender", "saratoga.transmit")],
 (), ["datagrams sent in answer"])

prop("C13", "Every request gets exactly one status, with its session and the right code",
 """Every decoded request is answered with exactly one status frame to the host that sent it, carrying the request's
 session. The error code follows from the request, the local files and the transfers already admitted: bad request
 for another version, UDP-Lite, streams, an empty file name or an unsupported request type; cannot receive or cannot
 send for unwilling or invalid willingness flags; file not found for a missing file to get, take, get as directory or
 delete; file in use for a put or give of an existing one; success otherwise. A refused request admits no transfer
 and changes no file.""",
 ["inputs", "histories"], "every request header, file name, state of the directory and history of admitted transfers",
 "No test covers request handling.",
 ["trans/trans.go", "saratoga/saratoga.go"], [("decision table", "trans.AddRxTran"), ("reply path", "saratoga.main, saratoga.transmit")],
 [("Transfers", "transfers admitted for remote hosts", "trans.Transfers")], ["status frames sent", "list of transfers", "directory contents"])

prop("C14", "At most one admitted transfer per peer and session",
 """However requests from any peers are repeated, mixed or handled concurrently, there is never more than one
 admitted transfer for the same peer (host and port) and session, and an admitted transfer keeps the type and file name it
 was admitted with. Repeating the same request is answered with success and adds nothing (as long as nothing else is
 wrong with it by then); a request for another transfer (another type or file name) under a session already in use by
 that peer is refused as a bad request. A delete is carried out at once and never admits a transfer. Sessions of
 different peers never interfere.""",
 ["histories", "schedules"], "every sequence and concurrent schedule of requests from any set of peers",
 "No test covers the transfer list.",
 ["trans/trans.go"], [("lookup by peer and session under a lock", "trans.addtran")],
 [("Transfers", "transfers admitted for remote hosts", "trans.Transfers")], ["list of transfers", "status frames sent"])

prop("C15", "Remote requests act only on the named file inside the shared directory",
 """Whatever file name a remote request carries (parent references, absolute paths, odd bytes, very long names), no
 file or directory outside the shared directory is ever created, changed, deleted or reported on, and the shared
 directory itself is never removed. A delete request answered with success removed exactly the named file or empty
 directory and nothing else; any other request, and any refused one, leaves every file as it was.""",
 ["inputs", "histories"], "every file name and request type against every state of the directory",
 "No test covers path handling or remote delete.",
 ["fileio/fileio.go", "trans/trans.go"], [("path clean-up and join", "fileio.FileExists, FileOpen, FileRm, FileMeta"), ("delete", "trans.AddRxTran")],
 [("directory tree", "files below and beside the shared directory", "file system")], ["file system before and after", "status frames sent"])

prop("C16", "Peer table: one entry per address, holding its latest beacon",
 """After any history of received beacons, from any hosts and handled concurrently, the table has exactly one entry
 for each address heard from, in the order first heard, with the free space, identifier, descriptor and willingness
 of that address's most recent beacon. A beacon is reported as news exactly when it adds an entry or changes one;
 the creation time never changes after the first and the update time only with a change.""",
 ["histories", "schedules"], "every sequence and concurrent schedule of beacons from any set of addresses",
 "No test covers the peer table.",
 ["beacon/beacon.go"], [("search by address and update or append under a lock", "beacon.NewPeer")],
 [("Peers", "peer table", "beacon.Peers")], ["table contents", "return value"])

prop("C17", "Transfers started locally are unique and removed or found exactly",
 """Transfers started by the operator, also concurrently, get session numbers that are never reused, and no two
 current transfers are for the same peer and file name; a refused start leaves no transfer behind. Looking up a transfer
 finds exactly the one with that direction, session and peer, or nothing, and removing a transfer removes exactly
 that one and leaves all others, failing with an error if it is not there.""",
 ["histories", "schedules"], "every sequence and concurrent schedule of starting, looking up and removing transfers",
 "No test covers the transfer list.",
 ["sarwin/sarwin.go"], [("session counter under a lock", "sarwin.newsession"), ("duplicate check and append under a lock", "sarwin.NewInitiator"), ("exact match", "sarwin.Lookup, Match, Remove")],
 [("Transfers", "transfers started or answered here", "sarwin.Transfers")], ["list of transfers", "return values"])

prop("C18", "Fetching never overwrites, and sending never alters, a local file",
 """Starting to fetch a file or directory (get, take, get directory) whose name already exists locally is refused and
 leaves what exists untouched; otherwise it creates exactly the named new, empty file or directory inside the shared
 directory. Starting to send a file (put, give, blind put) needs an existing one and changes nothing on disk, and
 asking a peer to delete a file touches no local file.""",
 ["inputs", "histories"], "every file name, transfer type and state of the directory",
 "The existing file tests open a few fixed names.",
 ["fileio/fileio.go", "sarwin/sarwin.go"], [("existence check and exclusive create", "fileio.FileOpen, FileExists"), ("check before a transfer is created", "sarwin.NewInitiator")],
 [("directory tree", "files of the shared directory", "file system")], ["file system before and after", "return values"])

prop("C19", "Status reports carry every hole exactly once in frames that fit",
 """Reporting a transfer's status with any number of holes sends the least number of status frames that fit the
 interface's packet size (its MTU less 60 bytes for IP and 8 for UDP), at least one; together they carry exactly the transfer's holes, in order, each once, and
 each frame carries the transfer's session, progress, in-response-to value and the requested flags. The all-holes flag
 says yes exactly when one frame carried everything. A status for an error carries no holes.""",
 ["inputs", "configurations"], "every set of received ranges, packet size, descriptor and timestamp choice",
 "No test covers status reporting.",
 ["sarwin/sarwin.go"], [("holes per frame from packet size and flags", "sarwin.stpaylen"), ("splitting loop", "sarwin.WriteStatus")],
 [("Curfills", "what has been received", "sarwin.Transfer")], ["datagrams sent"])

prop("C20", "A command changes exactly the setting it names, to a valid value",
 """After any sequence of command lines, every operator setting holds the value given by the last valid command for it,
 or its configured value, and is always one the protocol allows. A command with an unknown name, a bad value or the
 wrong number of words, and one that only asks for help or shows something, changes no setting; no command line
 crashes the program.""",
 ["inputs", "histories"], "every sequence of command lines",
 "No test covers the command line.",
 ["sarwin/sarwin.go"], [("command table and splitting", "sarwin.Run"), ("one handler per command", "sarwin.cmd*")],
 [("Cliflag", "operator settings", "sarflags.Cliflag")], ["settings after each command"])

prop("C21", "Metadata describes the actual file truthfully",
 """The metadata built for a local file, directory or named pipe states its real name, kind, exact size, modification
 and status-change time, and (for a file) the correct checksum of its whole content for the chosen algorithm, with a
 declared checksum length that matches; a named pipe has size 0 and the time of asking. The directory entry uses a descriptor in which the size fits. A missing file,
 a kind that does not match the transfer type, a checksum on anything but a file and a time that cannot be expressed as seconds
 since 2000 are refused with an error, and nothing of an earlier file shows in an object that is used again.""",
 ["inputs"], "every file content, size, kind, time and choice of flags",
 "The existing test describes one file of the author's machine.",
 ["metadata/metadata.go", "dirent/dirent.go", "fileio/checksum.go", "fileio/fileio.go", "sarsys/sys_linux.go"], [("kind and descriptor", "metadata.statfile"), ("size and times", "dirent.Statfile, sarsys.NewTime"), ("checksums", "fileio.Checksum")],
 (), ["metadata fields", "encoded frame", "error results"])

prop("C22", "The configuration is loaded faithfully and each transfer's copy is its own",
 """Loading a configuration gives every setting, flag table, timestamp table, command text and timeout exactly the value
 in the file (the shared directory may be overridden by the environment), and a missing or malformed file or an invalid
 default flag is reported as an error. A copy taken for a transfer equals the settings at that moment in every field,
 and later changes to either never show in the other.""",
 ["configurations", "histories"], "every configuration file and every history of later changes",
 "Existing tests load the one shipped file and look at nothing.",
 ["sarflags/sarflags.go", "saratoga/saratoga.json"], [("JSON to settings", "sarflags.ReadConfig"), ("field-by-field copy", "sarflags.CopyCliflags")],
 [("Cliflags", "settings", "sarflags.Cliflags")], ["settings after loading", "copies"])

prop("C23", "File blocks are read and written exactly at their offsets",
 """Writing blocks of data at any offsets, in any order, leaves the file holding at every byte the last value written
 there, zero in gaps, and nothing else changed. Reading a block returns exactly the file's bytes from that offset, as
 many as asked for or as there are; reading past the end, an offset beyond the largest file size and a closed or
 missing file are errors and change nothing (reading or writing no bytes at all may succeed).""",
 ["histories", "inputs"], "every sequence of block reads and writes at any offsets and lengths",
 "The existing test writes and reads one fixed block.",
 ["fileio/fileio.go"], [("seek then read or write", "fileio.FileSeek, FileRead, FileWrite"), ("close and delete", "fileio.FileClose, FileDelete")],
 [("file", "file contents", "file system")], ["returned blocks", "file contents"])

prop("C24", "The beacon command sends exactly the configured beacons to each target",
 """A beacon command for one or more addresses sends, to each valid address named and to no other, exactly the configured
 number of beacons, spaced by at least the configured interval; every one is a well-formed beacon that carries the operator's current settings, the node's free
 space if and only if it is to be advertised, and the sender's own address and process as identifier.""",
 ["inputs", "configurations"], "every list of addresses and combination of settings",
 "No test covers the command.",
 ["sarwin/sarwin.go", "beacon/beacon.go", "sarnet/sarnet.go"], [("target list", "sarwin.cmdBeacon"), ("sending loop", "sarwin.sendbeacons"), ("frame", "beacon.New, beacon.Send")],
 (), ["datagrams received by the targets"])

prop("C25", "Frames are values: they share no memory with buffers or with each other",
 """A frame that was built or decoded, a packet passed on to another part of the program, and an encoding stay exactly as
 they were when the buffer or list they came from is used again, when the same object decodes, builds or encodes another
 frame, and whatever else happens to other frames. Each operation changes its own target and nothing else.""",
 ["histories", "inputs"], "every sequence of writing buffers, decoding, building, encoding and passing on, for every kind of frame",
 "Tests look at one frame at a time, directly after the call.",
 ["data/data.go", "status/status.go", "request/request.go", "metadata/metadata.go", "beacon/beacon.go", "dirent/dirent.go"],
 [("copies into new slices", "Decode, New, Make of each frame"), ("packets passed on over channels", "Val of each frame"), ("a new buffer per encoding", "Encode of each frame")],
 (), ["all objects, packets and buffers after every operation"])

prop("C26", "What a command shows is the state as it is, its own help, or its refusal",
 """A setting command without an argument shows the current value of that very setting; the transfer commands list exactly the
 transfers in progress of their type, one row each with direction, type, peer and file; peers lists exactly the known peers,
 each with its own address, free space, identifier, capabilities and times; help and usage list exactly the configured
 commands, and a command asked with ? shows its own help and usage. A command line that is not accepted is reported in the
 error window, with the usage of that command if there is such a command. Showing anything changes nothing.""",
 ["histories", "inputs", "configurations"], "every command line in every state of the settings, the transfers and the peers",
 "No test covers the command lines or what they display.",
 ["sarwin/sarwin.go", "beacon/beacon.go"], [("display of settings", "sarwin.cmd* of each setting"), ("transfer table", "sarwin.Info"), ("peer table", "sarwin.cmdPeers"), ("help", "sarwin.prhelp, prusage, cmdHelp, cmdUsage")],
 [("settings", "Cliflags", "sarflags"), ("transfers", "transfers in progress", "sarwin.Transfers"), ("peers", "known peers", "beacon.Peers")], ["message and error windows"])

prop("C27", "The command that is run is the line on the prompt, however it was edited",
 """Keys typed at the prompt put a character over the one under the cursor or at the end; left and right move the cursor
 within the line and no further; backspace and delete take away the character before the cursor and never the prompt. Enter
 runs exactly the characters after the prompt, once, wherever the cursor is, records them in the history and puts up a new
 prompt with the next number and an empty line; on an empty line it does nothing. Up and down move the cursor through the lines
 entered before, stay inside each of them after its prompt, and never go below the line being typed; enter on an earlier line
 runs that line again and leaves the line being typed as it is. This holds for any characters (also : and those of
 more than one byte), any prompt, and lines longer than the window is wide.""",
 ["histories", "inputs", "configurations"], "every sequence of keys, prompt and window width",
 "No test covers the user interface.",
 ["sarwin/sarwin.go"], [("line", "sarwin.GetLine"), ("editing keys", "sarwin.BackSpace, CursorLeft, CursorRight, CursorUp, CursorDown"), ("prompt", "sarwin.prompt, promptlen")],
 [("line", "characters after the prompt, and the cursor", "command view"), ("history", "lines run", "sarwin.Cinfo.Commands")], ["command window", "sarwin.Cinfo.Commands"])

prop("C28", "Sending a frame is one datagram that is its encoding, to its address",
 """Sending a data, request, metadata, status or beacon frame over a connection puts exactly one datagram on the network, from
 that connection, to the given address (a beacon: to the address its connection is connected to), which holds exactly the
 bytes of the frame's encoding, whatever the size that fits a datagram, over IPv4 and IPv6, on connected and unconnected connections, and however many frames
 are sent on the same or other connections at the same time. The packet handed on for a frame and an address sends the same
 frame to that address. The frame is left as it was. A frame that cannot be encoded, and a connection that is closed
 or of another family than the address, give an error and nothing is sent.""",
 ["inputs", "schedules", "histories"], "every frame, connection and address, and every history of sends, also concurrent ones",
 "No test sends a frame.",
 ["data/data.go", "request/request.go", "metadata/metadata.go", "status/status.go", "beacon/beacon.go"],
 [("sending", "Send of data, request, metadata, status, beacon"), ("packet of frame and address", "Val of data, request, metadata, status, beacon")],
 [("Packet", "frame and the address it is for", "data.Packet, request.Packet, metadata.Packet, status.Packet, beacon.Packet")], ["datagrams on the network", "error results"])

prop("C29", "What is printed appears in its window, whole, once and in order",
 """Every message printed to the messages, errors or packets window ends up in that window and no other, whole and once, and those
 of one activity in the order they were printed, also when several activities print and clear at the same time. clear
 empties exactly the windows it names (all three if it names none). Ctrl-Space goes from the command line to the messages, to
 the packets if they are shown, to the errors and back; Ctrl-P shows or hides the packets. Printing, clearing, changing
 windows, keys in another window than the command line and resizing the terminal leave the line being typed, its cursor and
 everything else in the windows as they were; Enter afterwards runs that line. No size of the terminal ends the program.""",
 ["histories", "schedules", "inputs"], "every history of prints, clears, keys and resizings, and every interleaving of activities that print",
 "No test covers the user interface.",
 ["sarwin/sarwin.go"], [("printing", "sarwin.fprintf, fprintln, update"), ("clearing", "sarwin.Clearwin, cmdClear"), ("windows", "sarwin.switchView, showPacket, Layout")],
 [("windows", "lines of each window", "views msg, err, packet"), ("current", "the window that takes the keys", "g.CurrentView"), ("shown", "whether the packets are shown", "sarwin.showpacket")], ["windows of the user interface", "command line and its cursor"])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
