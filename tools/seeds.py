"""Planted bugs (never applied to /repo): what each breaks, and a demonstration."""
HEAD = '''import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from mtmap import *


def check(c, msg):
    if not c:
        print('FAIL', msg)
        sys.exit(1)


'''
SEEDS = []


def seed(id, property, edits, needs, breaks, demo):
    SEEDS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=demo))


C = 'src/commands/'


seed('objects-name-prefix', 'C09', [(C + 'delete_objects.rs', 'if &le_data.name != name {', 'if !le_data.name.starts_with(name) {')],
     'an object whose name starts with the whole name given by --obj',
     'deleteobjects --obj mobs:cow also deletes mobs:cow_baby', """
b = Block()
b.objects = [(7, 10000, 0, 0, lua_entity(b'a:b')), (7, 20000, 0, 0, lua_entity(b'a:b_c')), (7, 30000, 0, 0, lua_entity(b'a:'))]
with World({(0, 0, 0): b}) as w:
    run(w, 'deleteobjects', '--obj', 'a:b')
    check([o[1] for o in w.get(0, 0, 0).objects] == [20000, 30000], 'wrong objects left')
""")

seed('timers-skip-after-remove', 'C09', [(C + 'delete_timers.rs', 'for i in (0..block.node_timers.len()).rev() {', 'for i in (1..block.node_timers.len() + 1).rev().map(|i| i - 1).skip_while(|&i| i >= 4095) {')],
     'a block with 4096 node timers', 'the last timer of a block that has a timer on every node survives', """
b = Block()
b.timers = [(i, 5, 1) for i in range(4096)]
with World({(0, 0, 0): b}) as w:
    run(w, 'deletetimers')
    check(len(w.get(0, 0, 0).timers) == 0, 'timer left')
""")

seed('param2-invert-any-node', 'C10', [(C + 'set_param2.rs', 'if inst.args.node.is_some() && node_id.is_none() {', 'if inst.args.node.is_some() && node_id.is_none() && !inst.args.invert {')],
     'setparam2 with --node and --invert on a newer (v29) or falsely matched block that does not have the node', 'blocks without the named node get all their param2 values set', """
b = Block(names=(b'a:c',))
b.meta[3] = ({b'x': (b'\\0\\3a:b', 0)}, INV_EMPTY)
b.objects = [(7, 0, 0, 0, lua_entity(b'a:b'))]
with World({(5, 0, 0): b}) as w:
    run(w, 'setparam2', '--node', 'a:b', '--p1', 0, 0, 0, '--p2', 3, 3, 3, '--invert', 7)
    check(not any(w.get(5, 0, 0).p2), 'param2 of another node was set')
""")

seed('replace-shift-new-id', 'C14', [(C + 'replace_nodes.rs', 'new_id -= (new_id > old_id) as u16;', 'new_id -= (new_id >= old_id) as u16;'),
                                  (C + 'replace_nodes.rs', '*id - (*id > old_id) as u16\n', '*id - (*id >= old_id + 2) as u16 - (*id == old_id + 1) as u16 * (new_id >= old_id) as u16\n')],
     'a replaced node whose ID lies directly below another ID, above the ID of the replacement', 'nodes with the next higher ID change their name', """
b = Block(names=(b'a:new', b'a:old', b'a:third', b'a:fourth'))
b.nodes = [i % 4 for i in range(4096)]
with World({(0, 0, 0): b}) as w:
    run(w, 'replacenodes', 'a:old', 'a:new')
    r = w.get(0, 0, 0)
    for i in range(4096):
        want = b'a:new' if i % 4 == 1 else b.name_at(i)
        check(r.name_at(i) == want, 'node %d is %r instead of %r' % (i, r.name_at(i), want))
""")

seed('param2-count-volume', 'C23', [(C + 'set_param2.rs', 'count += 4096 - area.volume();', 'count += 4096 - (area.max.x - area.min.x + 1) as u64 * (area.max.y - area.min.y + 1) as u64 * (area.max.z - area.min.x + 1) as u64;')],
     'an inverted area that cuts a block at different offsets in x and z', 'the number of values set that is reported is wrong', """
with World({(0, 0, 0): Block()}) as w:
    rc, out = run(w, 'setparam2', '--p1', 2, 0, 4, '--p2', 3, 3, 7, '--invert', 7)
    check('4.06k' in out, out)
""")

seed('inv-prefix-match', 'C25', [(C + 'replace_in_inv.rs', 'parts.next() == Some(item)', 'parts.next().map_or(false, |p| p == item || (del_meta && p.starts_with(item) && p.len() > item.len() + 8))')],
     'replaceininv --deletemeta with an item whose name starts with the searched one and is much longer', 'items whose names merely start with the searched name are rewritten', """
inv = b'List main 2\\nWidth 0\\nItem a:b 3\\nItem a:b_something_else 5 0 x\\nEndInventoryList\\nEndInventory\\n'
b = Block()
b.meta[7] = ({}, inv)
with World({(0, 0, 0): b}) as w:
    run(w, 'replaceininv', 'a:b', 'a:c', '--deletemeta')
    check(w.get(0, 0, 0).meta[7][1] == inv.replace(b'Item a:b 3', b'Item a:c 3'), w.get(0, 0, 0).meta[7][1])
""")

seed('clone-src-frag', 'C12', [(C + 'clone.rs', 'let src_frag_rel = src_frag_abs - src_pos * 16;', 'let src_frag_rel = src_part_abs.rel_block_overlap(src_pos).unwrap();'),
                            (C + 'clone.rs', 'let dst_frag_rel = (src_frag_abs + offset)\n\t\t\t\t.rel_block_overlap(dst_pos).unwrap();', 'let mut dst_frag_rel = (src_frag_abs + offset)\n\t\t\t\t.rel_block_overlap(dst_pos).unwrap();\n\t\t\tif src_key == dst_key && src_frag_rel.min.y > dst_frag_rel.min.y {\n\t\t\t\tdst_frag_rel = src_frag_rel;\n\t\t\t}')],
     'a clone downwards within one and the same block', 'content moved down inside one block is left where it was', """
b = Block(names=(b'air', b'a:b'))
b.nodes[idx(2, 10, 2)] = 1
with World({(0, 0, 0): b}) as w:
    run(w, 'clone', '--p1', 2, 10, 2, '--p2', 2, 10, 2, '--offset', 0, -4, 0)
    check(w.get(0, 0, 0).name_at(idx(2, 6, 2)) == b'a:b', 'not copied')
""")

seed('overlay-whole-ungenerated', 'C13', [(C + 'overlay.rs', "\t\t\t// No area; copy whole mapblock.\n\t\t\tlet data = idb.get_block(key).unwrap();\n\t\t\tif is_valid_generated(&data) {", "\t\t\t// No area; copy whole mapblock.\n\t\t\tlet data = idb.get_block(key).unwrap();\n\t\t\tif is_valid_generated(&data) || db.get_block(key).is_err() {")],
     'overlaying a whole map that has a not generated block where the main map has none', 'a block that is not generated is copied', """
s = Block(flags=8)
with World({(0, 0, 0): s}) as src, World({(1, 0, 0): Block()}) as w:
    run(w, 'overlay', src.path)
    c = sqlite3.connect(w.path)
    check(c.execute('SELECT count(*) FROM blocks').fetchone()[0] == 1, 'a not generated block was copied')
""")

seed('setmeta-failed-twice', 'C08', [(C + 'set_meta_var.rs', "\t\tlet mut block = unwrap_or!(MapBlock::deserialize(&data),\n\t\t\t{ inst.status.inc_failed(); continue; });\n\n\t\tlet node_ids", "\t\tlet mut block = unwrap_or!(MapBlock::deserialize(&data),\n\t\t\t{ if data.len() > 1 { inst.status.inc_failed(); } continue; });\n\n\t\tlet node_ids")],
     'a stored block of less than two bytes', 'an unreadable block is not counted as failed', """
with World({(0, 0, 0): Block(), (1, 0, 0): b'\\x1d'}) as w:
    rc, out = run(w, 'setmetavar', 'k', 'v')
    check('Skipped 1 ' in out, out)
""")

seed('deletemeta-writes-timestamp', 'C11', [(C + 'delete_meta.rs', '\t\t\tfor idx in &to_delete {\n\t\t\t\tblock.metadata.remove(idx);\n\t\t\t}', '\t\t\tfor idx in &to_delete {\n\t\t\t\tblock.metadata.remove(idx);\n\t\t\t}\n\t\t\tif block.metadata.is_empty() && node_id.is_none() {\n\t\t\t\tblock.node_timers.clear();\n\t\t\t}')],
     'deletemeta without --node that removes the last metadata of a block which also has timers', 'node timers are deleted by deletemeta', """
b = Block()
b.meta[3] = ({b'k': (b'v', 0)}, INV_EMPTY)
b.timers = [(3, 5, 1)]
with World({(0, 0, 0): b}) as w:
    run(w, 'deletemeta')
    check(w.get(0, 0, 0).timers == [(3, 5, 1)], 'timers are gone')
""")

seed('overlay-swapped-key', 'C16', [(C + 'overlay.rs', 'clean_name_id_map(&mut src_block);\n\t\t\t\t\t\tdb.set_block(key, &src_block.serialize()).unwrap();', 'clean_name_id_map(&mut src_block);\n\t\t\t\t\t\tdb.set_block(pos.map(|v| v).to_block_key() + (pos.x == -1 && pos.y == -1) as i64 * 4096, &src_block.serialize()).unwrap();')],
     'overlay --invert with the area cutting a block at x = y = -1', 'the edited block is stored at another position', """
with World({(-1, -1, 0): Block(names=(b'a:b',))}) as src, World({(-1, -1, 0): Block(names=(b'a:c',))}) as w:
    run(w, 'overlay', src.path, '--p1', -3, -3, 3, '--p2', -1, -1, 5, '--invert')
    r = w.rows()
    check(list(r) == [key(-1, -1, 0)], r.keys())
""")

seed('query-object-v28', 'C22', [('src/utils.rs', 'if block_version <= 28 && !data_searchers.is_empty()', 'if block_version <= 29 && !data_searchers.is_empty()')],
     'a version 29 block', 'version 29 blocks, whose data is compressed, are skipped when a name is searched', """
import subprocess
p = os.path.join(os.getcwd(), 'testing', 'mapblock_v29.bin')
d = open(p, 'rb').read()
with World({(0, 0, 0): d}) as w:
    rc, out = run(w, 'deletemeta', '--node', 'test_mod:metadata')
    check(w.rows()[key(0, 0, 0)] != d, out)
""")

D = 'src/map_block/'
TRIG = "c = sqlite3.connect(w.path)\n    c.execute(\"CREATE TRIGGER t BEFORE %s ON blocks WHEN %s.pos = %d BEGIN SELECT RAISE(ABORT, 'no'); END\")\n    c.commit(); c.close()"

seed('commit-at-column-end', 'C01', [('src/map_database.rs', '\t\tself.stmt_set.next()?;\n\t\tself.stmt_set.reset()?;\n\t\tOk(())', '\t\tself.stmt_set.next()?;\n\t\tself.stmt_set.reset()?;\n\t\tif map_key & 0xfff == 0xfff {\n\t\t\tself.commit_if_needed()?;\n\t\t}\n\t\tOk(())')],
     'a failure after a block at x = -1 was saved', 'edits made before a failure stay in the map', """
b = Block()
b.meta[3] = ({b'k': (b'v', 0)}, INV_EMPTY)
with World({(-1, 0, 0): b, (5, 0, 0): b}) as w:
    """ + TRIG % ('INSERT', 'NEW', 5) + """
    old = w.rows()
    run(w, 'setmetavar', 'k', 'new')
    check(w.rows() == old, 'a failed run left edits')
""")

seed('names-first-sixteen', 'C02', [('src/instance.rs', 'for n in &args.nodes {', 'for n in args.nodes.iter().take(16) {')],
     'more than 16 names given with --nodes, a later one malformed', 'a command runs with a malformed name', """
b = Block()
b.meta[3] = ({b'k': (b'v', 0)}, INV_EMPTY)
with World({(0, 0, 0): b}) as w:
    rc, out = run(w, 'setmetavar', 'k', 'new', '--nodes', *['a:n%d' % i for i in range(16)], 'bad-name')
    check('Invalid node name' in out, out)
""")

seed('overlay-drops-empty-source', 'C03', [('src/instance.rs', 'sqlite::OpenFlags::new().set_read_only()', 'sqlite::OpenFlags::new().set_read_write()'),
     (C + 'overlay.rs', '\t\t\tif is_valid_generated(&data) {\n\t\t\t\tdb.set_block(key, &data).unwrap();\n\t\t\t}\n\t\t}\n\t}', '\t\t\tif is_valid_generated(&data) {\n\t\t\t\tdb.set_block(key, &data).unwrap();\n\t\t\t} else if data.is_empty() {\n\t\t\t\tidb.delete_block(key).unwrap();\n\t\t\t\tidb.commit_if_needed().unwrap();\n\t\t\t}\n\t\t}\n\t}')],
     'an overlay without area from a map that has an empty row', 'rows of the source map are deleted', """
with World({(0, 0, 0): Block(), (1, 0, 0): b''}) as src, World({(0, 0, 0): Block()}) as w:
    run(w, 'overlay', src.path)
    check(len(src.rows()) == 2, 'the source map was changed')
""")

seed('constraint-error-ignored', 'C04', [('src/map_database.rs', '\t\tself.stmt_del.next()?;\n\t\tself.stmt_del.reset()?;\n\t\tOk(())', '\t\tlet res = self.stmt_del.next();\n\t\tlet _ = self.stmt_del.reset();\n\t\tmatch res {\n\t\t\tErr(e) if e.code.map_or(true, |c| c & 0xff != 19) => Err(e.into()),\n\t\t\t_ => Ok(())\n\t\t}')],
     'a constraint (for instance a trigger) that refuses a deletion', 'the run reports success although a block could not be deleted', """
with World({(0, 0, 0): Block(), (5, 0, 0): Block()}) as w:
    """ + TRIG % ('DELETE', 'OLD', 5) + """
    rc, out = run(w, 'deleteblocks', '--p1', -16, -16, -16, '--p2', 200, 200, 200)
    check('Done.' not in out, out)
""")

seed('object-z-min', 'C05', [(D + 'static_object.rs', 'dst.write_i32::<BigEndian>(self.f_pos.z).unwrap();', 'dst.write_i32::<BigEndian>(self.f_pos.z.max(-i32::MAX)).unwrap();')],
     'an object at the lowest 32-bit z coordinate', 'objects move when their block is saved again', """
b = Block()
b.meta[3] = ({b'k': (b'v', 0)}, INV_EMPTY)
b.objects = [(7, 5, 5, -2 ** 31, lua_entity(b'a:b'))]
with World({(0, 0, 0): b}) as w:
    run(w, 'setmetavar', 'k', 'new')
    check(w.get(0, 0, 0).objects == b.objects, w.get(0, 0, 0).objects)
""")

seed('timer-count-cap', 'C06', [(D + 'node_timer.rs', '\tdst.write_u16::<BigEndian>(timers.len() as u16).unwrap();\n\n\tfor t in timers {', '\tlet timers = &timers[..timers.len().min(4095)];\n\tdst.write_u16::<BigEndian>(timers.len() as u16).unwrap();\n\n\tfor t in timers {')],
     'a block with a timer on every node', 'the last timer is lost when the block is saved', """
b = Block()
b.meta[3] = ({b'k': (b'v', 0)}, INV_EMPTY)
b.timers = [(i, 5, 1) for i in range(4096)]
with World({(0, 0, 0): b}) as w:
    run(w, 'setmetavar', 'k', 'new')
    check(len(w.get(0, 0, 0).timers) == 4096, 'timers lost')
""")

seed('entity-without-data', 'C07', [(D + 'static_object.rs', 'if src_data.read_u8()? != 1 {', 'src_data.set_position(1);\n\t\tif src.data[0] != 1 {')],
     'a LuaEntity object with empty data', 'deleteobjects panics on the object', """
b = Block()
b.objects = [(7, 0, 0, 0, b''), (7, 10000, 0, 0, lua_entity(b'a:b'))]
with World({(0, 0, 0): b}) as w:
    run(w, 'deleteobjects', '--obj', 'a:b')
    check(len(w.get(0, 0, 0).objects) == 1, 'objects not deleted')
""")

seed('value-trimmed', 'C15', [('src/cmd_line.rs', 'value: sub_matches.value_of("value").map(str::to_string),', 'value: sub_matches.value_of("value").map(|v| v.trim_end().to_string()),')],
     'a metadata value that ends with white space', 'the value is stored without it', """
b = Block()
b.meta[3] = ({b'k': (b'v', 0)}, INV_EMPTY)
with World({(0, 0, 0): b}) as w:
    run(w, 'setmetavar', 'k', 'new ')
    check(w.get(0, 0, 0).meta[3][0][b'k'][0] == b'new ', w.get(0, 0, 0).meta)
""")

seed('alloc-before-check', 'C18', [(D + 'mod.rs', '\t\tErr(MapBlockError::BadData)\n\t} else {\n\t\tlet mut bytes = vec_with_len(n);', '\t\tErr(MapBlockError::BadData)\n\t} else {'),
     (D + 'mod.rs', '\tif src.get_ref().len() - (src.position() as usize) < n {', '\tlet mut bytes = vec_with_len(n);\n\tif src.get_ref().len() - (src.position() as usize) < n {')],
     'an object with a corrupted 32-bit length', 'up to 4 GB are allocated for a few bytes of data', """
import subprocess, resource
b = Block()
b.objects = [(7, 0, 0, 0, b'\\1' + s16(b'a:b') + b'\\xff\\xff\\xff\\xf0')]
with World({(0, 0, 0): b}) as w:
    r = subprocess.run([BIN, '-y', w.path, 'deleteobjects', '--obj', 'a:b'], capture_output=True, text=True, timeout=60,
                       preexec_fn=lambda: resource.setrlimit(resource.RLIMIT_AS, (1 << 30, 1 << 30)))
    check('Done.' in r.stdout, r.stdout + r.stderr)
""")

seed('asks-until-answered', 'C19', [('src/cmd_line.rs', '\tstd::io::stdin().read_line(&mut result).unwrap();\n\tresult', '\twhile result.trim().is_empty() {\n\t\tresult.clear();\n\t\tstd::io::stdin().read_line(&mut result).unwrap();\n\t}\n\tresult')],
     'standard input closed at the confirmation prompt', 'the program never ends', """
import subprocess
with World({(0, 0, 0): Block()}) as w:
    try:
        rc, out = run(w, 'deletemeta', yes=False, stdin='', timeout=15)
    except subprocess.TimeoutExpired:
        check(False, 'the program does not end')
""")

seed('clone-short-offset-order', 'C20', [(C + 'clone.rs', 'let sort_dir = offset.map(|v| if v > 0 { -1 } else { 1 });', 'let sort_dir = offset.map(|v| if v > 15 { -1 } else { 1 });')],
     'an overlapping clone of more than 1024 blocks by less than a block upwards in z', 'blocks are copied from blocks that were already rewritten', """
n = 34
blocks = {}
for z in range(3):
    for y in range(n):
        for x in range(n):
            blocks[x, y, z] = Block(names=(b'a:%d' % z,)).encode()
with World(blocks) as w:
    rc, out = run(w, 'clone', '--p1', 0, 0, 0, '--p2', 16 * n - 1, 16 * n - 1, 47, '--offset', 0, 0, 12, timeout=280)
    for x, y in ((0, 0), (n - 1, n - 1), (5, 7)):
        b = w.get(x, y, 2)
        want = [b'a:1' if i // 256 < 12 else b'a:2' for i in range(4096)]
        check([b.name_at(i) for i in range(4096)] == want, 'copied a copy')
""")

seed('vacuum-tiny-rows', 'C21', [('src/map_database.rs', 'self.conn.execute("VACUUM")?;', 'self.conn.execute("DELETE FROM blocks WHERE length(data) < 2; VACUUM")?;')],
     'a map with a row of less than two bytes', 'vacuum removes rows', """
with World({(0, 0, 0): Block(), (1, 0, 0): b'\\x1d'}) as w:
    run(w, 'vacuum')
    check(len(w.rows()) == 2, 'a row is gone')
""")

seed('contains-block-at-minus-one', 'C24', [('src/spatial/area.rs', '\t\t\t&& self.min.z <= corner.z && corner.z + 15 <= self.max.z', '\t\t\t&& self.min.z <= corner.z && corner.z + 15 - (corner.z == -16) as i32 <= self.max.z')],
     'an area that ends one node before the upper border of the blocks at z = -1', 'the nodes beyond the area are edited as well', """
with World({(-1, -1, -1): Block()}) as w:
    run(w, 'setparam2', '--p1', -16, -16, -16, '--p2', -1, -1, -2, 7)
    p = w.get(-1, -1, -1).p2
    check(p[0] == 7 and p[4095] == 0, 'nodes outside the area were set')
""")

seed('count-text-wraps', 'C23', [('src/utils.rs', 'let f_num = num as f32;', 'let f_num = if num < 100_000 { num as u16 as f32 } else { num as f32 };')],
     'a count between 65536 and 99999', 'the printed count is 65536 too small', """
with World({(x, 0, 0): Block() for x in range(17)}) as w:
    rc, out = run(w, 'setparam2', '--p1', 0, 0, 0, '--p2', 16 * 17 - 1, 15, 15, 7)
    check('69.6k' in out, out)
""")
