#!/usr/bin/env python3
"""Writes properties.jsonl (one place to edit the wording)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    assert len(title) <= 80, (id, len(title))
    d = {"id": id, "title": title, "statement": statement,
         "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
         "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}}
    if state: d["anchors"]["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: d["anchors"]["observe_at"] = observe
    d["anchors"]["hook_needed"] = None
    P.append(d)

NOT = "The 22 unit tests exercise only the coordinate helpers, two sample mapblocks, the inventory line editor and the item-name scanner; "
p("C01", "A command's edits are saved all together or not at all",
  "Every change a command makes to the map (block written, replaced or deleted) happens inside one database transaction that is opened before the first read and committed exactly once, after the command has processed its last block. If the run ends early at any point (crash, panic, error, refusal), the map file still holds exactly what it held before. Only the vacuum command, which changes no blocks, may end the transaction early.",
  ["crash_points", "histories"], "every point at which a run can stop, every command and every map",
  NOT + "no test opens a database or stops a run half-way.",
  ["src/map_database.rs", "src/instance.rs", "src/commands/"],
  [("BEGIN when the map is opened; COMMIT in commit_if_needed", "src/map_database.rs"), ("commit after func(&mut inst)", "src/instance.rs compute_thread")],
  [("in_transaction", "true between BEGIN and COMMIT", "MapDatabase")], ["SQL statements executed on the main map"])
p("C02", "No map is edited without confirmation and valid arguments",
  "Unless --yes is given, no command starts before the user answered the prompt with y; any other answer, or a closed input, leaves the map untouched. A command never starts when the general or the command-specific argument rules are violated (area corners within +-31000 nodes, offset within +-62000 nodes per axis, --invert only with an area, well-formed node/object/item names, and each command's own rules); the run then ends with an error message instead, and a command whose arguments satisfy the rules is not refused. A command's warning is shown before the prompt.",
  ["inputs", "histories"], "every combination of arguments and every answer to the prompt",
  NOT + "argument validation and the prompt are never run.",
  ["src/instance.rs", "src/cmd_line.rs", "src/commands/"],
  [("verify_args, per-command verify_args, get_confirmation before func", "src/instance.rs compute_thread"), ("get_confirmation", "src/cmd_line.rs")],
  None, ["call of the command function", "log messages"])
p("C03", "The source map of an overlay is never modified",
  "While overlaying, the input map is opened read-only and is only ever read: no block is written to, removed from or vacuumed in it, and every write goes to the main map. The main map and the input map are never exchanged.",
  ["inputs", "programs"], "every overlay invocation and every pair of maps",
  NOT + "overlay is never run.",
  ["src/instance.rs", "src/commands/overlay.rs", "src/map_database.rs"],
  [("set_read_only open of the input map; idb used only with get_block/query", "src/instance.rs, src/commands/overlay.rs")])
p("C04", "Success is reported only after the commit; database errors surface",
  "'Done.' is reported only when the command has run and its changes were committed successfully; a failing commit, a map that cannot be opened or is not a map database, and invalid arguments are each reported as an error and never as success. No database error while reading rows or blocks, writing or deleting blocks or committing is silently discarded.",
  ["fault_sequences", "histories"], "every database operation that can fail in every command",
  NOT + "no failing database operation is simulated.",
  ["src/instance.rs", "src/map_database.rs", "src/commands/"],
  [("? / unwrap on every MapDatabase result; Done logged last", "src/instance.rs, src/map_database.rs")])
p("C05", "Re-saving an unedited mapblock preserves every field, in every version",
  "For every supported mapblock version (25, 27, 28 and 29) the writer emits the fields in the order, width, byte order and compression framing in which the reader takes them, so that a block that is read and written back unedited decodes to the same version, flags, light-complete mask, content, param1, param2, metadata variables (value and privacy), inventories, static objects, timestamp, node names and timers. Only metadata entries that hold no variables and no inventory lists are dropped, and privacy is stored for versions that have it (28 and later).",
  ["inputs"], "every decodable mapblock of every supported version",
  "Two tests decode and re-encode sample blocks; they cover a handful of field values and cannot cover every version, count and width.",
  ["src/map_block/"],
  [("deserialize / serialize pairs", "src/map_block/map_block.rs, node_data.rs, metadata.rs, static_object.rs, node_timer.rs, name_id_map.rs")])
p("C06", "Saved block data is complete: nothing is dropped or truncated on write",
  "Every byte a mapblock consists of reaches the output: each write hands over the whole buffer (never a possibly partial write), each length prefix is the length of the data that follows it and is never silently cut to fewer bits, and each compression stream is finished before its output is used.",
  ["inputs"], "every block content, in particular data larger than the encoder's internal buffer",
  NOT + "no test writes a value larger than a few bytes through a compressor.",
  ["src/map_block/mod.rs", "src/map_block/"],
  [("write_string16/32, write_all, checked length conversions, encoder.finish()", "src/map_block/")])
p("C07", "Malformed mapblocks never abort a run",
  "Decoding arbitrary bytes as a mapblock ends either in a decoded block or in an error, never in a panic. A block that decodes has 4096 nodes, only metadata and timer positions inside the block, and a name for every node ID it uses, so that no command panics, or overflows an addition, on it later.",
  ["inputs"], "every byte string stored as block data",
  "The tests decode well-formed sample blocks and one or two truncated ones.",
  ["src/map_block/", "src/block_utils.rs", "src/commands/"],
  [("checked reads (?), try_read_n, count and range validation", "src/map_block/")])
p("C08", "Unreadable blocks are skipped, counted and left untouched",
  "When a selected block cannot be decoded, the command leaves that block's stored data untouched, counts it exactly once as failed, and goes on with the remaining blocks; the number of failed blocks is reported at the end. Every selected block is counted as processed exactly once, whether or not it was changed or failed. (clone and overlay treat blocks they cannot use as absent.)",
  ["inputs", "histories"], "every mix of valid and invalid blocks, every command that edits blocks",
  NOT + "no command is ever run.",
  ["src/commands/", "src/instance.rs"],
  [("inc_done / inc_failed, unwrap_or!(deserialize, {inc_failed; continue})", "src/commands/*.rs")])
p("C09", "Element edits hit exactly the selected metadata, timers and objects",
  "deletemeta, deletetimers, deleteobjects, replaceininv and setmetavar change exactly those elements that satisfy every given criterion: position inside the area (outside it with --invert), node type at the position among the named nodes, object name, dropped-item name, or presence of the variable. An element failing any criterion is left as it was, and every element satisfying all of them is changed, in every block, wherever the area's faces cut through blocks.",
  ["inputs"], "every area, inversion, node/object/item selection and map content",
  NOT + "the selection logic of the five commands is never run.",
  ["src/commands/delete_meta.rs", "src/commands/delete_timers.rs", "src/commands/delete_objects.rs", "src/commands/replace_in_inv.rs", "src/commands/set_meta_var.rs"],
  [("per-element tests a.contains(pos) == invert, node id / name comparison", "src/commands/*.rs")])
p("C10", "Node edits hit exactly the selected nodes",
  "fill, replacenodes and setparam2 change exactly the nodes selected by their arguments - inside the area, or outside it with --invert, and of the given node type where one is named - whether a block lies fully or partly in the selection, and set them to the requested node name or param2 value. All other nodes keep their name and param2.",
  ["inputs"], "every area, inversion, node name and block content",
  NOT + "the node editing loops are never run.",
  ["src/commands/fill.rs", "src/commands/replace_nodes.rs", "src/commands/set_param2.rs", "src/spatial/mod.rs"],
  [("whole-block / partial-block split, InverseBlockIterator, index arithmetic", "src/commands/*.rs, src/spatial/mod.rs")])
p("C11", "A command changes only the kind of data it is documented to change",
  "deletemeta, replaceininv and setmetavar alter only node metadata; deletetimers only timers; deleteobjects only objects; fill and replacenodes only node contents (IDs and their names); setparam2 only param2; clone and overlay only nodes, param1, param2 and metadata of blocks they copy into (overlay may copy whole blocks). Version, flags, timestamps and all other data of an edited block are written back unchanged.",
  ["inputs", "programs"], "every command on every block",
  NOT + "no command is ever run.",
  ["src/commands/", "src/block_utils.rs"],
  [("which MapBlock fields each command writes", "src/commands/*.rs, src/block_utils.rs")])
p("C12", "Copies carry nodes, param1, param2 and metadata to the right place",
  "clone and overlay copy, for every position of the selected area (shifted by the offset) the node, param1, param2 and metadata from exactly the matching source position, and existing metadata in the destination region is replaced, not merged. Nothing outside the destination region changes; positions whose source block is missing keep their content.",
  ["inputs"], "every area, offset (any sign, not a multiple of 16) and block boundary",
  NOT + "clone, overlay and the block merge are never run.",
  ["src/block_utils.rs", "src/commands/clone.rs", "src/commands/overlay.rs"],
  [("merge_blocks, merge_metadata, fragment arithmetic", "src/block_utils.rs, src/commands/clone.rs, overlay.rs")])
p("C13", "Blocks that are not generated are never copied from, copied to or filled",
  "clone, overlay and fill treat a block whose flags mark it as not generated (or which is too short or of an unsupported version) as absent: its contents are never copied anywhere, nothing is copied or filled into it, and it is stored back unchanged if at all.",
  ["inputs"], "every block flag value and version, every command configuration",
  NOT + "one test looks at the flag of sample blocks; no command is run on ungenerated blocks.",
  ["src/map_block/map_block.rs", "src/commands/clone.rs", "src/commands/overlay.rs", "src/commands/fill.rs"],
  [("is_valid_generated filter before use of block data", "src/commands/clone.rs, overlay.rs, fill.rs")])
p("C14", "Every node keeps its name when node IDs are renumbered",
  "Whenever a command adds, removes, merges or renumbers node IDs, every node that was not itself selected for change still has the same node name afterwards, and every node ID in a saved block has a name. No two entries of a cleaned name table share a name and it holds no unused ID.",
  ["inputs"], "every name-ID table (gaps, duplicates, unused IDs) and node content",
  NOT + "ID renumbering is never run.",
  ["src/block_utils.rs", "src/commands/replace_nodes.rs", "src/commands/fill.rs", "src/map_block/name_id_map.rs"],
  [("clean_name_id_map, remove_shift, get_max_id()+1, nimap_diff", "src/block_utils.rs, src/map_block/name_id_map.rs")])
p("C15", "Every command-line argument reaches its command with its meaning",
  "Each argument a command declares is offered on the command line, looked up under the name it was declared with, parsed to the type the command expects, and delivered in the matching field of the command's arguments; optional arguments may be left out. A command line that the parser accepts never makes the program panic, text that is not valid Unicode is refused with an error, and an argument a command relies on unconditionally is required by the parser or by argument validation.",
  ["inputs", "configurations"], "every command and every accepted command line",
  NOT + "no test builds the command line or parses arguments.",
  ["src/cmd_line.rs", "src/commands/", "src/instance.rs"],
  [("to_cmd_line_args / parse_cmd_line_args tables, Command.args", "src/cmd_line.rs, src/commands/*.rs")])
p("C16", "Block data is written back only to the position it was read from",
  "An edited block is stored under the same map position it was loaded from (for whole-block overlay: the same position in the main map), built from that block's own data. Only deleteblocks removes blocks, and only overlay may add blocks that were not there; no other command adds or removes a block.",
  ["inputs", "programs"], "every command, every block position",
  NOT + "no command is ever run.",
  ["src/commands/", "src/map_database.rs"],
  [("set_block(key, block from get_block(key))", "src/commands/*.rs"), ("SQL text and parameter binding", "src/map_database.rs")])
p("C17", "Uninitialised memory is never observable",
  "Buffers that are allocated without initialisation are completely overwritten before any of their bytes is read, on every path including errors, and are never returned unless filled. Such allocation is confined to plain integer element types.",
  ["inputs"], "every path that uses an uninitialised buffer",
  "Tests cannot observe reads of uninitialised memory; a leak shows up only as nondeterminism.",
  ["src/map_block/mod.rs", "src/map_block/node_data.rs", "src/map_block/metadata.rs"],
  [("vec_with_len followed by read_exact / read_u16_into / write_u16_into over the whole buffer", "src/map_block/")])
p("C18", "A corrupt length field cannot cause a huge allocation",
  "Memory reserved while decoding is bounded by the bytes actually present in the input or by a small constant, whatever counts and lengths the data claims.",
  ["inputs"], "every value of every count and length field",
  "The tests decode well-formed data; a 4 GB length field is not among it.",
  ["src/map_block/"],
  [("try_read_n check before allocation, min(count, limit) capacities", "src/map_block/")])
p("C19", "The program always terminates and delivers every message",
  "The status lock is never held while waiting, sending or doing work, the confirmation request and its answer always pair up, and the user interface keeps draining messages until the worker is gone, so that neither side waits forever and every log message, including the worker's last one, is printed in order. Requests for confirmation are answered exactly once.",
  ["schedules"], "every interleaving of the worker and user-interface threads",
  NOT + "no test starts the worker thread.",
  ["src/instance.rs", "src/cmd_line.rs"],
  [("status_link channels, mutex use in StatusServer/StatusClient, UI loop until Disconnected", "src/instance.rs, src/cmd_line.rs")])
p("C20", "An overlapping clone copies the original content",
  "When source and destination of a clone overlap, every destination position receives what its source position held before the command started, for every offset direction: blocks are processed in an order in which no source block has been rewritten before it is read, or its original content is taken from the cache of blocks read earlier.",
  ["inputs", "histories"], "every offset and overlap, and any number of blocks beyond the cache size",
  NOT + "clone is never run.",
  ["src/commands/clone.rs", "src/utils.rs"],
  [("sort by direction before copying; CacheMap", "src/commands/clone.rs, src/utils.rs")])
p("C21", "Vacuum rebuilds the map file without touching blocks",
  "The vacuum command commits the open transaction, vacuums the main map and reports the outcome (completion or failure), without reading, writing or deleting any block. It runs outside a transaction.",
  ["histories"], "every map and every outcome of the vacuum statement",
  NOT + "vacuum is never run.",
  ["src/commands/vacuum.rs", "src/map_database.rs"],
  [("commit_if_needed then VACUUM", "src/map_database.rs"), ("vacuum command", "src/commands/vacuum.rs")])
p("C22", "The block query returns exactly the blocks the selection calls for",
  "A command visits exactly the saved blocks its selection can affect: blocks touching the area (deleteblocks: fully inside it), with --invert blocks not fully inside it (deleteblocks: not touching it), all blocks without an area; blocks up to version 28 are additionally skipped only when their data contains none of the searched node or object names. In particular no version 29 block and no block containing a searched name is skipped.",
  ["inputs"], "every area, inversion and map content",
  NOT + "the block query is never run.",
  ["src/utils.rs", "src/commands/", "src/spatial/area.rs"],
  [("query_keys and the flags each command passes to it", "src/utils.rs, src/commands/*.rs")])
p("C23", "Reported counts equal the number of changes made",
  "The count a command prints at the end (metadata entries deleted, objects deleted, timers deleted, nodes filled, nodes replaced, item stacks and nodes changed, variables set, param2 values set) equals the number of elements it changed, in whole and partial blocks and with or without --invert.",
  ["inputs"], "every selection and map content",
  NOT + "no command is ever run.",
  ["src/commands/"],
  [("count += per element / per block", "src/commands/*.rs")])
p("C24", "Coordinate and area arithmetic is exact over the whole map",
  "Conversions between block positions and database keys, node positions and in-block indices, areas and block areas, and all overlap, containment, touching, intersection and volume computations are exact for all positions within the map limits, including negative coordinates and areas whose faces do not fall on block borders, and never overflow there. Iterating over an area yields each position once; iterating over its complement in a block yields each remaining index once.",
  ["inputs"], "all positions and areas within the map limits",
  "The tests check some dozens of sample positions and areas.",
  ["src/spatial/"],
  [("Vec3 and Area methods, AreaIterator, InverseBlockIterator", "src/spatial/*.rs")])
p("C25", "replaceininv rewrites exactly the matching item stacks",
  "In an edited inventory every line naming exactly the searched item is rewritten - renamed, emptied with --delete, and stripped of metadata with --deletemeta while keeping a count or wear other than the defaults - and every other line, including list headers, widths, empty slots and items whose names merely start with the searched one, is kept byte for byte in its place. An inventory without a match is left as it is.",
  ["inputs"], "every inventory text and option combination",
  "One test covers a few inventories and options.",
  ["src/commands/replace_in_inv.rs"],
  [("do_replace", "src/commands/replace_in_inv.rs")])
p("C26", "A committed map survives power loss and SQLite-level corruption",
  "After 'Done.' was printed, the changes survive a power loss, and the SQLite library keeps its file consistent under any I/O fault.",
  ["crash_points", "fault_sequences"], "every crash point inside the storage stack",
  "It depends on SQLite, the operating system and the disk.",
  ["src/map_database.rs"], [("SQLite default journal and synchronous settings", "src/map_database.rs")])
p("C27", "Compressed data decompresses to the bytes that were compressed",
  "zlib and zstd output produced while saving decompresses, in this program and in Minetest, to exactly the bytes written.",
  ["inputs"], "every byte string handed to the compressors",
  "Only sample blocks are compressed.",
  ["src/map_block/"], [("flate2 and zstd crates", "Cargo.toml")])
p("C28", "Commands finish in time and memory proportional to the map",
  "A command's running time grows linearly with the number of selected blocks and its memory stays within the block caches plus the list of selected positions.",
  ["inputs"], "all map sizes",
  "No test measures time or memory.",
  ["src/commands/", "src/utils.rs"], [("bounded CacheMap, key list", "src/utils.rs")])
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as f:
    for d in P: f.write(json.dumps(d) + "\n")
print(len(P), "properties")
