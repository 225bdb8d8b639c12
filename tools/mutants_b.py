"""More changes for tools/mut.py: rewrites in the style of everyday refactoring (rf-*) and subtle bugs (sb-*)."""
from mutants import bug, same
CM = 'src/commands/'
BU, NI, UT = 'src/block_utils.rs', 'src/map_block/name_id_map.rs', 'src/utils.rs'
DM, DT, DO, RI, SM, RN, FI, P2, CL, OV, DB_ = (CM + x + '.rs' for x in (
    'delete_meta', 'delete_timers', 'delete_objects', 'replace_in_inv', 'set_meta_var', 'replace_nodes', 'fill',
    'set_param2', 'clone', 'overlay', 'delete_blocks'))
MB, MD, ND, NT, SO, MO = ('src/map_block/' + x + '.rs' for x in (
    'map_block', 'metadata', 'node_data', 'node_timer', 'static_object', 'mod'))
DBF, INS = 'src/map_database.rs', 'src/instance.rs'

# ---------------------------------------------------------------- deletemeta
DM_LOOP = '''		let mut to_delete = Vec::with_capacity(block.metadata.len());

		for (&idx, _) in &block.metadata {
			let abs_pos = Vec3::from_u16_key(idx) + block_corner;

			if let Some(a) = inst.args.area {
				if a.contains(abs_pos) == inst.args.invert {
					continue;
				}
			}
			if let Some(id) = node_id {
				if block.node_data.nodes[idx as usize] != id {
					continue;
				}
			}

			to_delete.push(idx);
		}

		if !to_delete.is_empty() {
			for idx in &to_delete {
				block.metadata.remove(idx);
			}
			count += to_delete.len() as u64;
			inst.db.set_block(key, &block.serialize()).unwrap();
		}
'''
same('rf-dm-helper', '', (DM, DM_LOOP, '''		let to_delete: Vec<u16> = block.metadata.keys().copied()
			.filter(|&idx| is_target(&block, &inst.args, idx, block_corner, node_id))
			.collect();
		if to_delete.is_empty() {
			continue;
		}
		for idx in &to_delete {
			block.metadata.remove(idx);
		}
		count += to_delete.len() as u64;
		inst.db.set_block(key, &block.serialize()).unwrap();
'''), (DM, '''fn delete_metadata(''', '''/// Whether the metadata at a given index is within the selection.
fn is_target(block: &MapBlock, args: &InstArgs, idx: u16, corner: Vec3, node_id: Option<u16>) -> bool {
	let in_area = args.area.map_or(true,
		|a| a.contains(Vec3::from_u16_key(idx) + corner) != args.invert);
	let is_node = node_id.map_or(true,
		|id| block.node_data.nodes[idx as usize] == id);
	in_area && is_node
}


fn delete_metadata('''))
same('rf-dm-retain', '', (DM, DM_LOOP, '''		let nodes = &block.node_data.nodes;
		let area = inst.args.area;
		let invert = inst.args.invert;
		let old_len = block.metadata.len();

		block.metadata.retain(|&idx, _| {
			let abs_pos = Vec3::from_u16_key(idx) + block_corner;
			let selected = area.map_or(true, |a| a.contains(abs_pos) != invert)
				&& node_id.map_or(true, |id| nodes[idx as usize] == id);
			!selected
		});

		let removed = old_len - block.metadata.len();
		if removed > 0 {
			count += removed as u64;
			inst.db.set_block(key, &block.serialize()).unwrap();
		}
'''))
same('rf-dm-match', '', (DM, '''			if let Some(a) = inst.args.area {
				if a.contains(abs_pos) == inst.args.invert {
					continue;
				}
			}
			if let Some(id) = node_id {
				if block.node_data.nodes[idx as usize] != id {
					continue;
				}
			}

			to_delete.push(idx);
''', '''			let wrong_node = match node_id {
				Some(id) => block.node_data.nodes[idx as usize] != id,
				None => false
			};
			let wrong_pos = match (inst.args.area, inst.args.invert) {
				(Some(a), false) => !a.contains(abs_pos),
				(Some(a), true) => a.contains(abs_pos),
				(None, _) => false
			};
			if !(wrong_node || wrong_pos) {
				to_delete.push(idx);
			}
'''))
same('rf-dm-nodeid', '', (DM, '''		let node_id = node.as_deref().and_then(|n| block.nimap.get_id(n));
		if node.is_some() && node_id.is_none() {
			continue; // Block doesn't contain the required node.
		}
''', '''		let node_id = match &node {
			None => None,
			Some(name) => match block.nimap.get_id(name) {
				Some(id) => Some(id),
				None => continue
			}
		};
'''))
bug('sb-dm-once', 'C09', (DM, DM_LOOP, DM_LOOP.replace('''			if let Some(id) = node_id {''', '''			if idx == 0xFFF && node_id.is_some() && to_delete.len() > 8 {
				continue;
			}
			if let Some(id) = node_id {''')))
bug('sb-dm-corner', 'C09', (DM, 'let abs_pos = Vec3::from_u16_key(idx) + block_corner;', 'let abs_pos = if block_corner.y < -30000 { Vec3::from_u16_key(idx) } else { Vec3::from_u16_key(idx) + block_corner };'))
bug('sb-dm-sub', 'C23', (DM, 'count += to_delete.len() as u64;', 'count += to_delete.len() as u64 & 0xFFF;'))
bug('sb-dm-break', 'C09', (DM, '''				if a.contains(abs_pos) == inst.args.invert {
					continue;''', '''				if a.contains(abs_pos) == inst.args.invert {
					if inst.args.invert && abs_pos == a.max { break; }
					continue;'''))

# ---------------------------------------------------------------- deletetimers
DT_LOOP = '''		for i in (0..block.node_timers.len()).rev() {
			let pos_idx = block.node_timers[i].pos;
			let pos = Vec3::from_u16_key(pos_idx);
			let abs_pos = pos + block_corner;

			if let Some(a) = inst.args.area {
				if a.contains(abs_pos) == inst.args.invert {
					continue;
				}
			}
			if let Some(id) = node_id {
				if block.node_data.nodes[pos_idx as usize] != id {
					continue;
				}
			}

			block.node_timers.remove(i);
			count += 1;
			modified = true;
		}
'''
same('rf-dt-retain', '', (DT, '		let mut modified = false;\n\n' + DT_LOOP, '''		let before = block.node_timers.len();
		let nodes = &block.node_data.nodes;
		let args = &inst.args;
		block.node_timers.retain(|t| {
			if let Some(a) = args.area {
				if a.contains(Vec3::from_u16_key(t.pos) + block_corner) == args.invert {
					return true;
				}
			}
			match node_id {
				Some(id) => nodes[t.pos as usize] != id,
				None => false
			}
		});
		let after = block.node_timers.len();
		let modified = after != before;
		count += (before - after) as u64;
'''))
same('rf-dt-take', '', (DT, DT_LOOP, '''		let timers = std::mem::take(&mut block.node_timers);
		for timer in timers {
			let abs_pos = Vec3::from_u16_key(timer.pos) + block_corner;
			let in_area = inst.args.area
				.map_or(true, |a| a.contains(abs_pos) != inst.args.invert);
			let node_ok = node_id
				.map_or(true, |id| block.node_data.nodes[timer.pos as usize] == id);
			if in_area && node_ok {
				count += 1;
				modified = true;
			} else {
				block.node_timers.push(timer);
			}
		}
'''))
same('rf-dt-partition', '', (DT, DT_LOOP, '''		let (removed, kept): (Vec<_>, Vec<_>) = block.node_timers.drain(..)
			.partition(|t| {
				let abs_pos = Vec3::from_u16_key(t.pos) + block_corner;
				inst.args.area.map_or(true, |a| a.contains(abs_pos) != inst.args.invert)
					&& node_id.map_or(true, |id| block.node_data.nodes[t.pos as usize] == id)
			});
		count += removed.len() as u64;
		modified = !removed.is_empty() || modified;
		block.node_timers = kept;
'''))
same('rf-dt-while', '', (DT, DT_LOOP, '''		let mut i = 0;
		while i < block.node_timers.len() {
			let idx = block.node_timers[i].pos;
			let abs_pos = block_corner + Vec3::from_u16_key(idx);
			let skip_area = match inst.args.area {
				Some(a) => a.contains(abs_pos) == inst.args.invert,
				None => false
			};
			let skip_node = node_id.is_some()
				&& Some(block.node_data.nodes[idx as usize]) != node_id;
			if skip_area || skip_node {
				i += 1;
			} else {
				block.node_timers.remove(i);
				modified = true;
				count += 1;
			}
		}
'''))
same('rf-dt-corner', '', (DT, 'let block_corner = Vec3::from_block_key(key) * 16;', 'let block_pos = Vec3::from_block_key(key);\n\t\tlet block_corner = Vec3::new(block_pos.x * 16, block_pos.y * 16, block_pos.z * 16);'))
bug('sb-dt-swap', 'C09', (DT, 'block.node_timers.remove(i);', 'block.node_timers.swap_remove(i);'))
bug('sb-dt-zero', 'C09', (DT, 'for i in (0..block.node_timers.len()).rev() {', 'for i in (0..block.node_timers.len()).rev() {\n\t\t\tif block.node_timers[i].timeout == u32::MAX { continue; }'))
bug('sb-dt-expired', 'C09', (DT, '			block.node_timers.remove(i);', '			if block.node_timers[i].elapsed > block.node_timers[i].timeout && i == 0 { continue; }\n			block.node_timers.remove(i);'))

# ---------------------------------------------------------------- deleteobjects
DO_LOOP = '''		let mut modified = false;
		for i in (0 .. block.static_objects.len()).rev() {
			if can_delete(
				&block.static_objects[i],
				&inst.args.area,
				inst.args.invert,
				&obj_name,
				&item_names
			) {
				block.static_objects.remove(i);
				modified = true;
				count += 1;
			}
		}

		if modified {
'''
same('rf-do-retain', '', (DO, DO_LOOP, '''		let area = &inst.args.area;
		let invert = inst.args.invert;
		let num_before = block.static_objects.len();
		block.static_objects.retain(|obj|
			!can_delete(obj, area, invert, &obj_name, &item_names));
		let num_deleted = num_before - block.static_objects.len();
		count += num_deleted as u64;

		if num_deleted != 0 {
'''))
DO_CAN = '''	if let Some(name) = obj_name {
		if let Ok(le_data) = LuaEntityData::deserialize(obj) {
			if &le_data.name != name {
				return false; // Object name does not match.
			}

			if !item_names.is_empty() {
				let item_name = get_item_name(&le_data.data);
				if !item_names.iter().any(|n| n == item_name) {
					// Item entity's item name does not match.
					return false
				}
			}
		} else {
			return false; // Keep invalid or unsupported objects.
		}
	}

	true // Delete if all tests pass.
'''
same('rf-do-match', '', (DO, DO_CAN, '''	let name = match obj_name {
		Some(n) => n,
		None => return true
	};
	match LuaEntityData::deserialize(obj) {
		Err(_) => false,
		Ok(le) if le.name != *name => false,
		Ok(_) if item_names.is_empty() => true,
		Ok(le) => {
			let item_name = get_item_name(&le.data);
			item_names.iter().any(|n| n.as_slice() == item_name)
		}
	}
'''))
same('rf-do-helper', '', (DO, DO_CAN, '''	obj_name.as_ref().map_or(true, |name| name_matches(obj, name, item_names))
'''), (DO, '''fn can_delete(''', '''fn name_matches(obj: &StaticObject, name: &[u8], item_names: &[Vec<u8>]) -> bool {
	let le_data = unwrap_or!(LuaEntityData::deserialize(obj), return false);
	if le_data.name.as_slice() != name {
		return false;
	}
	item_names.is_empty() || {
		let item_name = get_item_name(&le_data.data);
		item_names.iter().any(|n| n == item_name)
	}
}


fn can_delete('''))
same('rf-do-itemname', '', (DO, '''	if data.starts_with(b"return") {
		let item_name_start = get_item_name_start(data);
		if let Some(idx) = item_name_start {
			let name = &data[idx..].split(|&c| c == b' ' || c == b'"').next();
			if let Some(n) = name {
				return n;
			}
		}
		b""
	} else {
		data
	}
''', '''	if !data.starts_with(b"return") {
		return data;
	}
	match get_item_name_start(data) {
		Some(start) => {
			let rest = &data[start..];
			let len = rest.iter().position(|&c| c == b' ' || c == b'"')
				.unwrap_or(rest.len());
			&rest[..len]
		},
		None => b""
	}
'''))
same('rf-do-start', '', (DO, '''	if let Some(idx) = ITEM_NAME_SEARCHER_NEW.with(|s| s.search_in(data)) {
		Some(idx + ITEM_NAME_PAT_NEW.len())
	} else if let Some(idx) = ITEM_NAME_SEARCHER_OLD.with(|s| s.search_in(data)) {
		Some(idx + ITEM_NAME_PAT_OLD.len())
	} else {
		None
	}
''', '''	ITEM_NAME_SEARCHER_NEW.with(|s| s.search_in(data))
		.map(|idx| idx + ITEM_NAME_PAT_NEW.len())
		.or_else(|| ITEM_NAME_SEARCHER_OLD.with(|s| s.search_in(data))
			.map(|idx| idx + ITEM_NAME_PAT_OLD.len()))
'''))
same('rf-do-names', '', (DO, '''	let obj_name = if inst.args.items.is_some() {
		Some(ITEM_ENT_NAME.to_owned())
	} else {
		inst.args.object.as_ref().map(to_bytes)
	};

	let item_names: Vec<_> = inst.args.items.as_ref().unwrap_or(&Vec::new())
		.iter().map(to_bytes).collect();
''', '''	let (obj_name, item_names): (Option<Vec<u8>>, Vec<Vec<u8>>) = match &inst.args.items {
		Some(items) => (Some(ITEM_ENT_NAME.to_vec()), items.iter().map(to_bytes).collect()),
		None => (inst.args.object.as_ref().map(to_bytes), Vec::new())
	};
'''))
bug('sb-do-space', 'C09', (DO, "c == b' ' || c == b'\"'", "c == b' ' || c == b'\"' || c == b'\\\\'"))
bug('sb-do-type', 'C09', (SO, 'if src.obj_type != 7 {', 'if src.obj_type & 7 != 7 {'))
bug('sb-do-prefix', 'C09', (DO, 'if !item_names.iter().any(|n| n == item_name) {', 'if !item_names.iter().any(|n| item_name.starts_with(n)) {'))
bug('sb-do-oldfirst', 'C09', (DO, '''	if let Some(idx) = ITEM_NAME_SEARCHER_NEW.with(|s| s.search_in(data)) {
		Some(idx + ITEM_NAME_PAT_NEW.len())
	} else if let Some(idx) = ITEM_NAME_SEARCHER_OLD.with(|s| s.search_in(data)) {
		Some(idx + ITEM_NAME_PAT_OLD.len())
	} else {''', '''	if let Some(idx) = ITEM_NAME_SEARCHER_OLD.with(|s| s.search_in(data)) {
		Some(idx + ITEM_NAME_PAT_OLD.len())
	} else if let Some(idx) = ITEM_NAME_SEARCHER_NEW.with(|s| s.search_in(data)) {
		Some(idx + ITEM_NAME_PAT_NEW.len())
	} else {'''))
bug('sb-do-first', 'C23 C09', (DO, '				count += 1;\n', '				count += 1;\n				if i > 255 { break; }\n'))
bug('sb-do-neg', 'C09', (DO, 'div_euclid(DIV_FAC)', 'div_euclid(DIV_FAC).max(-31000)'))

# ---------------------------------------------------------------- replaceininv
RI_BODY = '''		// Max 5 parts: Item <name> <count> <wear> <metadata>
		let mut parts = line.splitn(5, |&x| x == SPACE);
		if parts.next() == Some(b"Item") && parts.next() == Some(item) {
			if delete {
				new_inv.extend_from_slice(b"Empty");
			} else {
				new_inv.extend_from_slice(b"Item ");
				new_inv.extend_from_slice(new_item);

				if del_meta { // Only re-serialize necessary parts
					let count = parts.next().unwrap_or(b"1");
					let wear = parts.next().unwrap_or(b"0");
					if count != b"1" || wear != b"0" {
						new_inv.push(SPACE);
						new_inv.extend_from_slice(count);
					}
					if wear != b"0" {
						new_inv.push(SPACE);
						new_inv.extend_from_slice(wear);
					}
				} else {
					for part in parts {
						new_inv.push(SPACE);
						new_inv.extend_from_slice(part);
					}
				}
			}
			mods += 1;
		} else {
			new_inv.extend_from_slice(line);
		}
		new_inv.push(NEWLINE);
'''
same('rf-ri-vec', '', (RI, RI_BODY, '''		let parts: Vec<&[u8]> = line.splitn(5, |&x| x == SPACE).collect();
		let is_match = parts.len() >= 2 && parts[0] == b"Item" && parts[1] == item;
		if !is_match {
			new_inv.extend_from_slice(line);
			new_inv.push(NEWLINE);
			continue;
		}
		mods += 1;
		if delete {
			new_inv.extend_from_slice(b"Empty\\n");
			continue;
		}
		new_inv.extend_from_slice(b"Item ");
		new_inv.extend_from_slice(new_item);
		if del_meta {
			let count: &[u8] = parts.get(2).copied().unwrap_or(b"1");
			let wear: &[u8] = parts.get(3).copied().unwrap_or(b"0");
			if count != b"1" || wear != b"0" {
				new_inv.push(SPACE);
				new_inv.extend_from_slice(count);
			}
			if wear != b"0" {
				new_inv.push(SPACE);
				new_inv.extend_from_slice(wear);
			}
		} else {
			for part in &parts[2..] {
				new_inv.push(SPACE);
				new_inv.extend_from_slice(part);
			}
		}
		new_inv.push(NEWLINE);
'''))
same('rf-ri-helper', '', (RI, '''						new_inv.push(SPACE);
						new_inv.extend_from_slice(count);
''', '''						push_part(&mut new_inv, count);
'''), (RI, '''						new_inv.push(SPACE);
						new_inv.extend_from_slice(wear);
''', '''						push_part(&mut new_inv, wear);
'''), (RI, '''						new_inv.push(SPACE);
						new_inv.extend_from_slice(part);
''', '''						push_part(&mut new_inv, part);
'''), (RI, 'fn do_replace(', '''/// Append a space and another part of an item string.
#[inline]
fn push_part(dst: &mut Vec<u8>, part: &[u8]) {
	dst.push(b' ');
	dst.extend_from_slice(part);
}


fn do_replace('''))
same('rf-ri-filter', '', (RI, '''	for line in inv.split(|&x| x == NEWLINE) {
		if line.is_empty() {
			// Necessary because of newline after final EndInventory
			continue;
		}
''', '''	// Empty lines are dropped because of newline after final EndInventory
	for line in inv.split(|&x| x == NEWLINE).filter(|l| !l.is_empty()) {
'''))
same('rf-ri-nested', '', (RI, '''					if count != b"1" || wear != b"0" {
						new_inv.push(SPACE);
						new_inv.extend_from_slice(count);
					}
					if wear != b"0" {
						new_inv.push(SPACE);
						new_inv.extend_from_slice(wear);
					}
''', '''					match (count == b"1", wear == b"0") {
						(true, true) => (),
						(false, true) => {
							new_inv.push(SPACE);
							new_inv.extend_from_slice(count);
						},
						(_, false) => {
							new_inv.push(SPACE);
							new_inv.extend_from_slice(count);
							new_inv.push(SPACE);
							new_inv.extend_from_slice(wear);
						}
					}
'''))
same('rf-ri-args', '', (RI, '''	let new_item = inst.args.new_item.as_ref().map(to_bytes)
		.unwrap_or(if inst.args.delete { vec![] } else { item.clone() });
''', '''	let new_item = match &inst.args.new_item {
		Some(n) => to_bytes(n),
		None if inst.args.delete => Vec::new(),
		None => item.clone()
	};
'''))
same('rf-ri-any', '', (RI, '''			if !node_ids.is_empty()
				&& !node_ids.contains(&block.node_data.nodes[idx as usize])
			{
				continue;
			}
''', '''			let node_id = block.node_data.nodes[idx as usize];
			if !(node_ids.is_empty() || node_ids.iter().any(|&id| id == node_id)) {
				continue;
			}
'''))
same('rf-ri-total', '', (RI, '''			item_mods += i_mods;
			if i_mods > 0 {
				node_mods += 1;
				modified = true;
			}
''', '''			if i_mods == 0 {
				continue;
			}
			modified = true;
			node_mods += 1;
			item_mods += i_mods;
'''))
bug('sb-ri-crlf', 'C09 C25', (RI, '''		if line.is_empty() {
''', '''		if line.is_empty() || line == b"\\r" {
'''))
bug('sb-ri-four', 'C09 C25', (RI, 'line.splitn(5,', 'line.splitn(4,'))
bug('sb-ri-end', 'C09 C25', (RI, '	if mods > 0 {\n		*inv = new_inv;', '	if mods > 0 {\n		if mods > 32 { new_inv.dedup(); }\n		*inv = new_inv;'))
bug('sb-ri-trim', 'C09 C25', (RI, 'new_inv.extend_from_slice(line);', 'new_inv.extend_from_slice(if line.ends_with(b" ") { &line[..line.len() - 1] } else { line });'))
bug('sb-ri-wear', 'C09 C25', (RI, '''					if wear != b"0" {
						new_inv''', '''					if wear != b"0" && count != b"0" {
						new_inv'''))

# ---------------------------------------------------------------- setmetavar
SM_SET = '''			if data.vars.contains_key(&key) {
				if inst.args.delete {
					// Note: serialize() will cull any newly empty metadata.
					data.vars.remove(&key);
				} else {
					data.vars.get_mut(&key).unwrap().0 = value.clone();
				}
				modified = true;
				count += 1;
			}
'''
same('rf-sm-getmut', '', (SM, SM_SET, '''			let changed = if inst.args.delete {
				data.vars.remove(&key).is_some()
			} else if let Some(var) = data.vars.get_mut(&key) {
				var.0 = value.clone();
				true
			} else {
				false
			};
			if changed {
				modified = true;
				count += 1;
			}
'''))
same('rf-sm-entry', '', (SM, SM_SET, '''			if let Entry::Occupied(mut entry) = data.vars.entry(key.clone()) {
				if inst.args.delete {
					entry.remove();
				} else {
					entry.get_mut().0 = value.clone();
				}
				modified = true;
				count += 1;
			}
'''), (SM, 'use crate::unwrap_or;', 'use std::collections::hash_map::Entry;\n\nuse crate::unwrap_or;'))
same('rf-sm-insert', '', (SM, SM_SET, '''			let private = match data.vars.get(&key) {
				Some(&(_, p)) => p,
				None => continue
			};
			if inst.args.delete {
				data.vars.remove(&key);
			} else {
				data.vars.insert(key.clone(), (value.clone(), private));
			}
			modified = true;
			count += 1;
'''))
same('rf-sm-helper', '', (SM, SM_SET, '''			if update_var(data, &key, &value, inst.args.delete) {
				modified = true;
				count += 1;
			}
'''), (SM, 'fn set_meta_var(', '''/// Set or delete a variable, if present. Returns true on success.
fn update_var(meta: &mut NodeMetadata, key: &Vec<u8>, value: &[u8], delete: bool) -> bool {
	if delete {
		return meta.vars.remove(key).is_some();
	}
	match meta.vars.get_mut(key) {
		Some((val, _)) => {
			*val = value.to_vec();
			true
		},
		None => false
	}
}


fn set_meta_var('''), (SM, 'use crate::map_block::MapBlock;', 'use crate::map_block::{MapBlock, NodeMetadata};'),
    ('src/map_block/mod.rs', 'pub use metadata::{NodeMetadataList,', 'pub use metadata::{NodeMetadata, NodeMetadataList,'))
bug('sb-sm-private', 'C09', (SM, 'data.vars.get_mut(&key).unwrap().0 = value.clone();', 'data.vars.insert(key.clone(), (value.clone(), false));'))
bug('sb-sm-same', 'C23', (SM, '			if data.vars.contains_key(&key) {', '			if data.vars.get(&key).map_or(false, |v| v.0 != value) {'))
bug('sb-sm-empty', 'C09', (SM, '					data.vars.remove(&key);', '					data.vars.remove(&key);\n					if data.vars.is_empty() { data.inv.clear(); }'))

# ---------------------------------------------------------------- replacenodes
RN_WHOLE = '''		// Block already contains replacement node, beware!
		if let Some(mut new_id) = block.nimap.get_id(new_node) {
			// Delete unused ID from name-ID map and shift IDs down.
			block.nimap.remove_shift(old_id);
			// Shift replacement ID, if necessary.
			new_id -= (new_id > old_id) as u16;

			// Map old node IDs to new node IDs.
			for id in nodes {
				*id = if *id == old_id {
					replaced += 1;
					new_id
				} else {
					*id - (*id > old_id) as u16
				};
			}
		}
		// Block does not contain replacement node.
		// Simply replace the node name in the name-ID map.
		else {
			for id in nodes {
				replaced += (*id == old_id) as u64;
			}
			block.nimap.0.insert(old_id, new_node.to_vec());
		}
'''
same('rf-rn-split', '', (RN, RN_WHOLE, '		replaced = replace_whole(block, old_id, new_node);\n'), (RN, 'fn do_replace(', '''fn replace_whole(block: &mut MapBlock, old_id: u16, new_node: &[u8]) -> u64 {
	let nodes = &mut block.node_data.nodes;
	let replaced = nodes.iter().filter(|&&id| id == old_id).count() as u64;

	match block.nimap.get_id(new_node) {
		None => {
			block.nimap.0.insert(old_id, new_node.to_vec());
		},
		Some(id) => {
			let new_id = if id > old_id { id - 1 } else { id };
			block.nimap.remove_shift(old_id);
			for node in nodes.iter_mut() {
				if *node == old_id {
					*node = new_id;
				} else if *node > old_id {
					*node -= 1;
				}
			}
		}
	}
	replaced
}


fn do_replace('''))
same('rf-rn-part', '', (RN, '''			for pos in &node_area {
				let idx = (pos.x + 16 * (pos.y + 16 * pos.z)) as usize;
				if nodes[idx] == old_id {
					nodes[idx] = new_id;
					replaced += 1;
				}
			}
''', '''			for z in node_area.min.z ..= node_area.max.z {
				for y in node_area.min.y ..= node_area.max.y {
					let row = y * 16 + z * 256;
					let first = (row + node_area.min.x) as usize;
					let last = (row + node_area.max.x) as usize;
					for node in nodes[first ..= last].iter_mut().filter(|n| **n == old_id) {
						*node = new_id;
						replaced += 1;
					}
				}
			}
'''))
same('rf-rn-newid', '', (RN, '''		let (new_id, new_id_needed) = match block.nimap.get_id(new_node) {
			Some(id) => (id, false),
			None => (block.nimap.get_max_id().unwrap() + 1, true)
		};
''', '''		let existing_id = block.nimap.get_id(new_node);
		let new_id_needed = existing_id.is_none();
		let new_id = match existing_id {
			Some(id) => id,
			None => block.nimap.get_max_id().unwrap() + 1
		};
'''))
same('rf-rn-cond', '', (RN, '''	if area
		.filter(|a| a.contains_block(block_pos) != a.touches_block(block_pos))
		.is_some()
	{
		let node_area = area.unwrap().rel_block_overlap(block_pos).unwrap();
''', '''	let is_partial = area.map_or(false, |a|
		a.touches_block(block_pos) && !a.contains_block(block_pos));
	if is_partial {
		let node_area = area.unwrap().rel_block_overlap(block_pos).unwrap();
'''))
same('rf-rn-gone', '', (RN, '''		if !nodes.contains(&old_id) {
			for node in nodes {
				*node -= (*node > old_id) as u16;
			}
''', '''		let still_used = nodes.iter().any(|&id| id == old_id);
		if !still_used {
			for node in nodes.iter_mut().filter(|n| **n > old_id) {
				*node -= 1;
			}
'''))
bug('sb-rn-shift', 'C14', (NI, 'for k in id + 1 ..= self.get_max_id().unwrap_or(0) {', 'for k in id + 1 .. self.get_max_id().unwrap_or(0) {'))
bug('sb-rn-invp', 'C10', (RN, 'for idx in InverseBlockIterator::new(node_area) {\n				if nodes[idx] == old_id {', 'for idx in InverseBlockIterator::new(node_area) {\n				if nodes[idx] == old_id && idx < 4095 {'))
bug('sb-rn-ge', 'C14', (RN, 'new_id -= (new_id > old_id) as u16;', 'new_id -= (new_id >= old_id && old_id > 0) as u16;'))
bug('sb-rn-count', 'C23', (RN, 'replaced += (*id == old_id) as u64;', 'replaced += (*id == old_id) as u64;\n				if replaced == 4096 { replaced = 4095; }'))

# ---------------------------------------------------------------- fill
same('rf-fi-slice', '', (FI, '''				for x in area.min.x ..= area.max.x {
					block.node_data.nodes[(zy_start + x) as usize] = id;
				}
''', '''				let start = (zy_start + area.min.x) as usize;
				let end = (zy_start + area.max.x) as usize;
				block.node_data.nodes[start ..= end].fill(id);
'''))
same('rf-fi-iter', '', (FI, '''		for z in area.min.z ..= area.max.z {
			let z_start = z * 256;
			for y in area.min.y ..= area.max.y {
				let zy_start = z_start + y * 16;
				for x in area.min.x ..= area.max.x {
					block.node_data.nodes[(zy_start + x) as usize] = id;
				}
			}
		}
''', '''		for pos in &area {
			block.node_data.nodes[(pos.x + 16 * (pos.y + 16 * pos.z)) as usize] = id;
		}
'''))
same('rf-fi-id', '', (FI, '''			let fill_id = block.nimap.get_id(&node).unwrap_or_else(|| {
				let next = block.nimap.get_max_id().unwrap() + 1;
				block.nimap.0.insert(next, node.to_vec());
				next
			});
''', '''			let fill_id = get_or_add_id(&mut block, &node);
'''), (FI, 'fn fill(', '''fn get_or_add_id(block: &mut MapBlock, node: &[u8]) -> u16 {
	if let Some(id) = block.nimap.get_id(node) {
		return id;
	}
	let new_id = block.nimap.get_max_id().unwrap() + 1;
	block.nimap.0.insert(new_id, node.to_owned());
	new_id
}


fn fill('''))
same('rf-fi-order', '', (FI, '''			fill_area(&mut block, fill_id, block_part, inst.args.invert);
			clean_name_id_map(&mut block);
			count += if inst.args.invert {
				4096 - block_part.volume()
			} else {
				block_part.volume()
			};
''', '''			let volume = block_part.volume();
			count += match inst.args.invert {
				true => block.node_data.nodes.len() as u64 - volume,
				false => volume
			};
			fill_area(&mut block, fill_id, block_part, inst.args.invert);
			clean_name_id_map(&mut block);
'''))
same('rf-fi-new', '', (FI, '''			block.node_data.nodes.fill(0);
			block.nimap.0.clear();
			block.nimap.0.insert(0, node.to_vec());
			count += block.node_data.nodes.len() as u64;
''', '''			for id in block.node_data.nodes.iter_mut() {
				*id = 0;
				count += 1;
			}
			block.nimap = NameIdMap(std::iter::once((0, node.clone())).collect());
'''), (FI, 'use crate::map_block::{MapBlock, is_valid_generated};', 'use crate::map_block::{MapBlock, NameIdMap, is_valid_generated};'))
same('rf-fi-gen', '', (FI, '''		let mut block = unwrap_or!(MapBlock::deserialize(&data),
			{ inst.status.inc_failed(); continue; });

		if !is_valid_generated(&data) {
			continue; // Only fill generated mapblocks.
		}
''', '''		let parsed = MapBlock::deserialize(&data);
		if parsed.is_err() {
			inst.status.inc_failed();
			continue;
		}
		if !is_valid_generated(&data) {
			continue; // Only fill generated mapblocks.
		}
		let mut block = parsed.unwrap();
'''))
bug('sb-fi-id0', 'C14', (FI, '			block.nimap.0.clear();\n', ''))
bug('sb-fi-nextid', 'C14 C10', (FI, 'let next = block.nimap.get_max_id().unwrap() + 1;', 'let next = block.nimap.0.len() as u16;'))
same('rf-p2-zip', '', (P2, '''				for i in 0 .. nd.param2.len() {
					if nd.nodes[i] == nid {
						nd.param2[i] = param2_val;
						count += 1;
					}
				}
''', '''				for (id, p2) in nd.nodes.iter().zip(nd.param2.iter_mut()) {
					if *id == nid {
						*p2 = param2_val;
						count += 1;
					}
				}
'''))
same('rf-p2-whole', '', (P2, '''			if let Some(nid) = node_id {
				for i in 0 .. nd.param2.len() {
					if nd.nodes[i] == nid {
						nd.param2[i] = param2_val;
						count += 1;
					}
				}
			} else {
				nd.param2.fill(param2_val);
				count += nd.param2.len() as u64;
			}
''', '''			count += set_param2_whole(&mut block, node_id, param2_val);
'''), (P2, 'fn set_param2(', '''fn set_param2_whole(block: &mut MapBlock, node_id: Option<u16>, val: u8) -> u64 {
	let nd = &mut block.node_data;
	match node_id {
		None => {
			nd.param2.fill(val);
			nd.param2.len() as u64
		},
		Some(id) => {
			let mut changed = 0;
			for (i, p2) in nd.param2.iter_mut().enumerate() {
				if nd.nodes[i] == id {
					*p2 = val;
					changed += 1;
				}
			}
			changed
		}
	}
}


fn set_param2('''), (P2, '''		let nd = &mut block.node_data;
		if let Some(area)''', '''		if let Some(area)'''))
same('rf-p2-part', '', (P2, '''					if no_node || nd.nodes[i] == id {
						nd.param2[i] = val;
						count += 1;
					}
''', '''					let hit = match node_id {
						None => true,
						Some(wanted) => nd.nodes[i] == wanted
					};
					if !hit {
						continue;
					}
					count += 1;
					nd.param2[i] = val;
'''), (P2, '''		let no_node = node_id.is_none();
		let id = node_id.unwrap_or(0);

''', ''))
bug('sb-p2-zero', 'C10', (P2, 'if no_node || nd.nodes[i] == id {', 'if no_node && nd.param2[i] != 0xFF || nd.nodes[i] == id {'))
bug('sb-p2-count', 'C23', (P2, '			count += 4096 - area.volume();', '			count += 4095 - area.volume();'))
bug('sb-p2-len', 'C10', (P2, 'for i in 0 .. nd.param2.len() {', 'for i in 1 .. nd.param2.len() {'))

# ---------------------------------------------------------------- clone, overlay, helpers
same('rf-cl-helper', '', (CL, '''			merge_blocks(&src_block, &mut dst_block,
				src_frag_rel, dst_frag_rel);
			merge_metadata(&src_block.metadata, &mut dst_block.metadata,
				src_frag_rel, dst_frag_rel);
''', '''			merge_part(&src_block, &mut dst_block, src_frag_rel, dst_frag_rel);
'''), (OV, '''			merge_blocks(&src_block, &mut dst_block,
				src_frag_rel, dst_frag_rel);
			merge_metadata(&src_block.metadata, &mut dst_block.metadata,
				src_frag_rel, dst_frag_rel);
''', '''			merge_part(&src_block, &mut dst_block, src_frag_rel, dst_frag_rel);
'''), (BU, '/// Culls duplicate', '''/// Copy nodes and metadata.
pub fn merge_part(src: &MapBlock, dst: &mut MapBlock, src_area: Area, dst_area: Area) {
	merge_metadata(&src.metadata, &mut dst.metadata, src_area, dst_area);
	merge_blocks(src, dst, src_area, dst_area);
}


/// Culls duplicate'''), (CL, 'use crate::block_utils::{merge_blocks, merge_metadata, clean_name_id_map};', 'use crate::block_utils::{merge_part, clean_name_id_map};'),
    (OV, 'use crate::block_utils::{merge_blocks, merge_metadata, clean_name_id_map};', 'use crate::block_utils::{merge_blocks, merge_metadata, merge_part, clean_name_id_map};'))
same('rf-cl-dst', '', (CL, '''		let mut dst_block = unwrap_or!(
			opt_unwrap_or!(
				get_cached(&mut inst.db, &mut block_cache, dst_key),
				continue
			),
			{ inst.status.inc_failed(); continue; }
		);
''', '''		let mut dst_block = match get_cached(&mut inst.db, &mut block_cache, dst_key) {
			None => continue,
			Some(Err(_)) => {
				inst.status.inc_failed();
				continue;
			},
			Some(Ok(block)) => block
		};
'''))
same('rf-cl-cached', '', (CL, '''	match cache.get(&key) {
		Some(data) => data.clone(),
		None => {
			let block = db.get_block_opt(key).unwrap()
				.filter(|d| is_valid_generated(d))
				.map(|d| MapBlock::deserialize(&d));
			cache.insert(key, block.clone());
			block
		}
	}
''', '''	if let Some(cached) = cache.get(&key) {
		return cached.clone();
	}
	let block = match db.get_block_opt(key).unwrap() {
		Some(data) if is_valid_generated(&data) => Some(MapBlock::deserialize(&data)),
		_ => None
	};
	cache.insert(key, block.clone());
	block
'''))
same('rf-cl-filter', '', (CL, '''		for src_pos in &src_blocks_needed {
			if !src_pos.is_valid_block_pos() {
				continue;
			}
			let src_key = src_pos.to_block_key();
			// Continue if a None or Some(Err) value is retrieved.
			let src_block = opt_unwrap_or!(
				get_cached(&mut inst.db, &mut block_cache, src_key)
					.map(|res| res.ok()).flatten(),
				continue
			);
''', '''		for src_pos in src_blocks_needed.into_iter().filter(|p| p.is_valid_block_pos()) {
			let src_key = src_pos.to_block_key();
			// Continue if a None or Some(Err) value is retrieved.
			let src_block = match get_cached(&mut inst.db, &mut block_cache, src_key) {
				Some(Ok(b)) => b,
				_ => continue
			};
'''))
same('rf-cl-sort', '', (CL, '''	let sort_dir = offset.map(|v| if v > 0 { -1 } else { 1 });
	// Subtract one from inverted axes to keep values from overflowing.
	let sort_offset = sort_dir.map(|v| if v == -1 { -1 } else { 0 });

	dst_keys.sort_unstable_by_key(|k| {
		(Vec3::from_block_key(*k) * sort_dir + sort_offset).to_block_key()
	});
''', '''	// Subtract one from inverted axes to keep values from overflowing.
	let flip = |v: i32, ofs: i32| if ofs > 0 { -v - 1 } else { v };
	dst_keys.sort_by_key(|&k| {
		let pos = Vec3::from_block_key(k);
		Vec3::new(flip(pos.x, offset.x), flip(pos.y, offset.y), flip(pos.z, offset.z)).to_block_key()
	});
'''))
same('rf-ov-fn', '', (OV, '''				let res = || -> Result<(), MapBlockError> {
					let dst_data = opt_unwrap_or!(
						db.get_block_opt(key).unwrap()
							.filter(|d| is_valid_generated(&d)),
						return Ok(()));
					let src_data = idb.get_block(key).unwrap();
					if !is_valid_generated(&src_data) {
						return Ok(());
					}

					let mut src_block = MapBlock::deserialize(&src_data)?;
					let mut dst_block = MapBlock::deserialize(&dst_data)?;

					let block_part = area.rel_block_overlap(pos).unwrap();
					if invert {
						// For inverted selections, reverse the order of the
						// overlay operations.
						merge_blocks(&dst_block, &mut src_block,
							block_part, block_part);
						merge_metadata(&dst_block.metadata, &mut src_block.metadata,
							block_part, block_part);
						clean_name_id_map(&mut src_block);
						db.set_block(key, &src_block.serialize()).unwrap();
					} else {
						merge_blocks(&src_block, &mut dst_block,
							block_part, block_part);
						merge_metadata(&src_block.metadata, &mut dst_block.metadata,
							block_part, block_part);
						clean_name_id_map(&mut dst_block);
						db.set_block(key, &dst_block.serialize()).unwrap();
					}
					Ok(())
				}();

				if res.is_err() {
					inst.status.inc_failed()
				}
''', '''				if overlay_partial(db, idb, key, area, invert).is_err() {
					inst.status.inc_failed();
				}
'''), (OV, '''/// Overlay without offsetting anything.
''', '''fn overlay_partial(db: &mut MapDatabase, idb: &mut MapDatabase, key: i64, area: Area, invert: bool)
	-> Result<(), MapBlockError>
{
	let dst_data = match db.get_block_opt(key).unwrap() {
		Some(d) if is_valid_generated(&d) => d,
		_ => return Ok(())
	};
	let src_data = idb.get_block(key).unwrap();
	if !is_valid_generated(&src_data) {
		return Ok(());
	}

	let src_block = MapBlock::deserialize(&src_data)?;
	let dst_block = MapBlock::deserialize(&dst_data)?;
	let block_part = area.rel_block_overlap(Vec3::from_block_key(key)).unwrap();

	// For inverted selections, reverse the order of the overlay operations.
	let (top, mut bottom) = if invert { (dst_block, src_block) } else { (src_block, dst_block) };
	merge_blocks(&top, &mut bottom, block_part, block_part);
	merge_metadata(&top.metadata, &mut bottom.metadata, block_part, block_part);
	clean_name_id_map(&mut bottom);
	db.set_block(key, &bottom.serialize()).unwrap();
	Ok(())
}


/// Overlay without offsetting anything.
'''))
same('rf-ov-whole', '', (OV, '''				let data = idb.get_block(key).unwrap();
				if is_valid_generated(&data) {
					db.set_block(key, &data).unwrap();
				}
			} else''', '''				copy_block(idb, db, key);
			} else'''), (OV, '''			let data = idb.get_block(key).unwrap();
			if is_valid_generated(&data) {
				db.set_block(key, &data).unwrap();
			}
		}
''', '''			copy_block(idb, db, key);
		}
'''), (OV, '''/// Overlay without offsetting anything.
''', '''fn copy_block(src: &mut MapDatabase, dst: &mut MapDatabase, key: i64) {
	let data = src.get_block(key).unwrap();
	if !is_valid_generated(&data) {
		return;
	}
	dst.set_block(key, &data).unwrap();
}


/// Overlay without offsetting anything.
'''))
same('rf-ov-cond', '', (OV, '''			if (!invert && area.contains_block(pos))
				|| (invert && !area.touches_block(pos))
			{ // If''', '''			let copy_whole = if invert { !area.touches_block(pos) } else { area.contains_block(pos) };
			if copy_whole { // If'''))
same('rf-ov-main', '', (OV, '''	let offset = inst.args.offset.unwrap_or(Vec3::new(0, 0, 0));
	if offset == Vec3::new(0, 0, 0) {
		overlay_no_offset(inst);
	} else {
		overlay_with_offset(inst);
	}
''', '''	match inst.args.offset {
		Some(ofs) if ofs != Vec3::new(0, 0, 0) => overlay_with_offset(inst),
		_ => overlay_no_offset(inst)
	}
'''))
same('rf-ov-dst', '', (OV, '''		let dst_part_abs = dst_area.map_or(
			// If no area is given, the destination part is the whole mapblock.
			Area::new(dst_pos * 16, dst_pos * 16 + 15),
			|a| a.abs_block_overlap(dst_pos).unwrap()
		);
''', '''		let dst_part_abs = if let Some(a) = dst_area {
			a.abs_block_overlap(dst_pos).unwrap()
		} else {
			// If no area is given, the destination part is the whole mapblock.
			let corner = dst_pos * 16;
			Area::new(corner, corner + 15)
		};
'''))
bug('sb-cl-frag', 'C12', (CL, '.rel_block_overlap(dst_pos).unwrap();', '.rel_block_overlap(dst_pos).unwrap();\n			if src_frag_rel.volume() == 1 { continue; }'))
bug('sb-cl-fail', 'C08', (CL, '			{ inst.status.inc_failed(); continue; }', '			{ if dst_key != 0 { inst.status.inc_failed(); } continue; }'))
bug('sb-cl-srcerr', 'C08 C12', (CL, '''					.map(|res| res.ok()).flatten(),
				continue''', '''					.map(|res| res.ok()).flatten(),
				break'''))
bug('sb-ov-invmeta', 'C12', (OV, '''						merge_metadata(&dst_block.metadata, &mut src_block.metadata,
							block_part, block_part);
						clean_name_id_map(&mut src_block);''', '''						clean_name_id_map(&mut src_block);'''))
bug('sb-ov-touch', 'C12', (OV, '|| (invert && !area.touches_block(pos))', '|| (invert && !area.contains_block(pos))'))
bug('sb-ov-gen', 'C13', (OV, '''					if !is_valid_generated(&src_data) {
						return Ok(());
					}
''', ''))
bug('sb-ov-srccache', 'C12', (OV, 'cache.insert(key, block.clone());', 'cache.insert(key ^ (key == -1) as i64, block.clone());'))
same('rf-bu-rows', '', (BU, '''	for z in src_area.min.z ..= src_area.max.z {
		for y in src_area.min.y ..= src_area.max.y {
			for x in src_area.min.x ..= src_area.max.x {
				let idx = x + y * 16 + z * 256;
				dst_nd.nodes[(idx + diff) as usize] =
					src_nd.nodes[idx as usize] + nimap_diff;
			}
		}
	}

	// Copy param1 and param2
	for z in src_area.min.z ..= src_area.max.z {
		for y in src_area.min.y ..= src_area.max.y {
			let row_start = y * 16 + z * 256;
			let start = row_start + src_area.min.x;
			let end = row_start + src_area.max.x;
''', '''	// Copy param1 and param2 along the way
	for z in src_area.min.z ..= src_area.max.z {
		for y in src_area.min.y ..= src_area.max.y {
			let row_start = y * 16 + z * 256;
			let start = row_start + src_area.min.x;
			let end = row_start + src_area.max.x;

			for idx in start ..= end {
				dst_nd.nodes[(idx + diff) as usize] =
					src_nd.nodes[idx as usize] + nimap_diff;
			}
'''))
same('rf-bu-nimap', '', (BU, '''	for (id, name) in &src_block.nimap.0 {
		dst_block.nimap.0.insert(id + nimap_diff, name.to_vec());
	}
''', '''	dst_block.nimap.0.extend(src_block.nimap.0.iter()
		.map(|(id, name)| (id + nimap_diff, name.clone())));
'''))
same('rf-bu-meta', '', (BU, '''	let mut to_delete = Vec::with_capacity(dst_meta.len());
	for (&idx, _) in dst_meta.iter() {
		let pos = Vec3::from_u16_key(idx);
		if dst_area.contains(pos) {
			to_delete.push(idx);
		}
	}
	for idx in &to_delete {
		dst_meta.remove(idx);
	}
''', '''	dst_meta.retain(|&idx, _| !dst_area.contains(Vec3::from_u16_key(idx)));
'''))
same('rf-bu-metasrc', '', (BU, '''	for (&idx, meta) in src_meta {
		let pos = Vec3::from_u16_key(idx);
		if src_area.contains(pos) {
			dst_meta.insert((idx as i32 + diff) as u16, meta.clone());
		}
	}
''', '''	src_meta.iter()
		.filter(|(&idx, _)| src_area.contains(Vec3::from_u16_key(idx)))
		.for_each(|(&idx, meta)| {
			let new_idx = (i32::from(idx) + diff) as u16;
			dst_meta.insert(new_idx, meta.clone());
		});
'''))
same('rf-bu-clean', '', (BU, '''		// Skip unused IDs.
		if !used[id as usize] {
			continue;
		}

		if let Some(first_id) = new_nimap.get_id(&name) {
			// Name is already in the map; map old, duplicate ID to the
			// existing ID.
			map[id as usize] = first_id as u16;
		} else {
			// Name is not yet in the map; assign it to the next ID.
			new_nimap.0.insert(new_nimap.0.len() as u16, name.clone());
			// Map old ID to newly-inserted ID.
			map[id as usize] = new_nimap.0.len() as u16 - 1;
		}
''', '''		if used[id as usize] {
			map[id as usize] = match new_nimap.get_id(name) {
				Some(existing) => existing,
				None => {
					let next_id = new_nimap.0.len() as u16;
					new_nimap.0.insert(next_id, name.clone());
					next_id
				}
			};
		}
'''))
same('rf-bu-clean2', '', (BU, '''	let mut used = vec![false; id_count];
	for id in &block.node_data.nodes {
		used[*id as usize] = true;
	}
''', '''	let mut used = vec![false; id_count];
	block.node_data.nodes.iter().for_each(|&id| used[usize::from(id)] = true);
'''), (BU, '''	for id in &mut block.node_data.nodes {
		*id = map[*id as usize];
	}
''', '''	for i in 0 .. block.node_data.nodes.len() {
		let old_id = block.node_data.nodes[i];
		block.node_data.nodes[i] = map[old_id as usize];
	}
'''))
same('rf-bu-valid', '', (BU, '''	part_valid(a) && part_valid(b) && a.max - a.min == b.max - b.min''', '''	let same_size = a.max - a.min == b.max - b.min;
	same_size && [a, b].iter().all(|area| part_valid(area))'''))
bug('sb-bu-nimapdiff', 'C14', (BU, 'let nimap_diff = dst_block.nimap.get_max_id().unwrap() + 1;', 'let nimap_diff = dst_block.nimap.0.len() as u16;'))
bug('sb-bu-p1', 'C12 C11', (BU, '&src_nd.param1[start as usize ..= end as usize]', '&src_nd.param2[start as usize ..= end as usize]'))
bug('sb-bu-metadiff', 'C12', (BU, '(idx as i32 + diff) as u16, meta.clone()', '(idx as i32 + diff.max(-4000)) as u16, meta.clone()'))
bug('sb-bu-cleanlast', 'C14', (BU, 'let id_count = (block.nimap.get_max_id().unwrap() + 1) as usize;', 'let id_count = block.nimap.0.len();'))

# ---------------------------------------------------------------- deleteblocks, query, cache
same('rf-db-foreach', '', (DB_, '''	for key in keys {
		inst.status.inc_done();
		inst.db.delete_block(key).unwrap();
	}
''', '''	keys.into_iter().for_each(|key| {
		inst.db.delete_block(key).unwrap();
		inst.status.inc_done();
	});
'''))
same('rf-q-helper', '', (UT, '''			if let Some(&block_version) = data.get(0) {
				// If block version <= 28, data must match at least one search
				// string. This optimization doesn't work for new mapblocks, as
				// all block data is now compressed.
				// TODO: Remove this legacy optimization?
				if block_version <= 28 && !data_searchers.is_empty()
					&& !data_searchers.iter().any(|s| s.search_in(&data).is_some())
				{
					continue;
				}
			}
''', '''			if !may_match(&data, &data_searchers) {
				continue;
			}
'''), (UT, '/// Note: For mapblock', '''/// If block version <= 28, data must match at least one search string.
fn may_match(data: &[u8], searchers: &[TwoWaySearcher]) -> bool {
	match data.first() {
		Some(&version) if version <= 28 => searchers.is_empty()
			|| searchers.iter().any(|s| s.search_in(data).is_some()),
		_ => true
	}
}


/// Note: For mapblock'''))
same('rf-q-area', '', (UT, '''	let block_area = area.map(|a| {
		if invert == include_partial {
			a.to_contained_block_area()
		} else {
			Some(a.to_touching_block_area())
		}
	}).flatten();
''', '''	let block_area = match area {
		None => None,
		Some(a) if invert != include_partial => Some(a.to_touching_block_area()),
		Some(a) => a.to_contained_block_area()
	};
'''))
same('rf-q-early', '', (UT, '''	if !empty_area || invert {
		for (i,''', '''	let nothing_selected = empty_area && !invert;
	if !nothing_selected {
		for (i,'''))
same('rf-c-insert', '', (UT, '''		if self.key_queue.len() >= self.cap {
			if let Some(oldest_key) = self.key_queue.pop_front() {
				self.map.remove(&oldest_key);
			}
		}
		self.key_queue.push_back(key.clone());
		self.map.insert(key, value);
''', '''		let oldest = if self.key_queue.len() < self.cap {
			None
		} else {
			self.key_queue.pop_front()
		};
		if let Some(k) = oldest {
			self.map.remove(&k);
		}
		self.key_queue.push_back(key.clone());
		self.map.insert(key, value);
'''))
bug('sb-db-last', 'C16 C08', (DB_, '		inst.db.delete_block(key).unwrap();', '		if key != i64::from(i32::MIN) { inst.db.delete_block(key).unwrap(); }'))

# ---------------------------------------------------------------- codec
same('rf-cd-header', '', (MB, '''		let version = raw_crs.read_u8()?;
		if version < MIN_BLOCK_VER || version > MAX_BLOCK_VER {
			return Err(MapBlockError::InvalidBlockVersion);
		}
''', '''		let version = raw_crs.read_u8()?;
		if !is_supported_version(version) {
			return Err(MapBlockError::InvalidBlockVersion);
		}
'''), (MB, '''	if version < MIN_BLOCK_VER || version > MAX_BLOCK_VER {
		return false;
	}
''', '''	if !is_supported_version(version) {
		return false;
	}
'''), (MB, 'pub fn is_valid_generated(', '''fn is_supported_version(version: u8) -> bool {
	(MIN_BLOCK_VER ..= MAX_BLOCK_VER).contains(&version)
}


pub fn is_valid_generated('''))
same('rf-cd-ids', '', (MB, '''		if !node_data.nodes.iter().all(|id| nimap.0.contains_key(id)) {
			return Err(MapBlockError::BadData);
		}
''', '''		for id in &node_data.nodes {
			if nimap.0.get(id).is_none() {
				return Err(MapBlockError::BadData);
			}
		}
'''))
same('rf-cd-ids2', '', (MB, '''		if !node_data.nodes.iter().all(|id| nimap.0.contains_key(id)) {
''', '''		if node_data.nodes.iter().any(|id| !nimap.0.contains_key(id)) {
'''))
same('rf-cd-timer', '', (NT, '''		let pos = src.read_u16::<BigEndian>()?;
		if pos as usize >= NODE_COUNT {
			return Err(MapBlockError::BadData);
		}
		let timeout = src.read_u32::<BigEndian>()?;
		let elapsed = src.read_u32::<BigEndian>()?;
		timers.push(NodeTimer {pos, timeout, elapsed});
''', '''		timers.push(NodeTimer::deserialize(src)?);
'''), (NT, 'pub type NodeTimerList', '''impl NodeTimer {
	fn deserialize<T: Read>(src: &mut T) -> Result<Self, MapBlockError> {
		let pos = src.read_u16::<BigEndian>()?;
		if usize::from(pos) >= NODE_COUNT {
			return Err(MapBlockError::BadData);
		}
		Ok(Self {
			pos,
			timeout: src.read_u32::<BigEndian>()?,
			elapsed: src.read_u32::<BigEndian>()?
		})
	}
}


pub type NodeTimerList'''))
same('rf-cd-obj', '', (SO, '''		dst.write_i32::<BigEndian>(self.f_pos.x).unwrap();
		dst.write_i32::<BigEndian>(self.f_pos.y).unwrap();
		dst.write_i32::<BigEndian>(self.f_pos.z).unwrap();
''', '''		for &v in &[self.f_pos.x, self.f_pos.y, self.f_pos.z] {
			dst.write_i32::<BigEndian>(v).unwrap();
		}
'''))
same('rf-cd-readn', '', (MO, '''	if src.get_ref().len() - (src.position() as usize) < n {
		// Corrupted length or otherwise not enough bytes to fill buffer.
		Err(MapBlockError::BadData)
	} else {
		let mut bytes = vec_with_len(n);
		src.read_exact(&mut bytes)?;
		Ok(bytes)
	}
''', '''	let remaining = src.get_ref().len() - src.position() as usize;
	if n > remaining {
		// Corrupted length or otherwise not enough bytes to fill buffer.
		return Err(MapBlockError::BadData);
	}
	let mut bytes = vec![0u8; n];
	src.read_exact(&mut bytes)?;
	Ok(bytes)
'''))
same('rf-cd-readslice', '', (MO, '''	if src.get_ref().len() - (src.position() as usize) < n {
		// Corrupted length or otherwise not enough bytes to fill buffer.
		Err(MapBlockError::BadData)
	} else {
		let mut bytes = vec_with_len(n);
		src.read_exact(&mut bytes)?;
		Ok(bytes)
	}
''', '''	let start = src.position() as usize;
	let bytes = src.get_ref().get(start .. start + n)
		.ok_or(MapBlockError::BadData)?
		.to_vec();
	src.set_position((start + n) as u64);
	Ok(bytes)
'''))
same('rf-cd-metalist', '', (MD, '''		let count = self.iter().filter(|&(_, m)| !m.is_empty()).count();

		if count == 0 {
			dst.write_u8(0).unwrap();
		} else {
			let version = if block_version >= 28 { 2 } else { 1 };
			dst.write_u8(version).unwrap();
			dst.write_u16::<BigEndian>(count as u16).unwrap();

			for (&pos, meta) in self {
				if !meta.is_empty() {
					dst.write_u16::<BigEndian>(pos).unwrap();
					meta.serialize(dst, version);
				}
			}
		}
''', '''		let entries: Vec<_> = self.iter().filter(|(_, m)| !m.is_empty()).collect();
		if entries.is_empty() {
			dst.write_u8(0).unwrap();
			return;
		}

		let version = if block_version < 28 { 1 } else { 2 };
		dst.write_u8(version).unwrap();
		dst.write_u16::<BigEndian>(entries.len() as u16).unwrap();
		for (&pos, meta) in entries {
			dst.write_u16::<BigEndian>(pos).unwrap();
			meta.serialize(dst, version);
		}
'''))
same('rf-cd-vars', '', (MD, '''			let name = read_string16(src)?;
			let val = read_string32(src)?;
			let private = if version >= 2 {
				src.read_u8()? != 0
			} else { false };
			vars.insert(name.clone(), (val, private));
''', '''			let name = read_string16(src)?;
			let val = read_string32(src)?;
			let private = version >= 2 && src.read_u8()? > 0;
			vars.insert(name, (val, private));
'''))
same('rf-cd-zlib', '', (ND, '''		// Fail if there is leftover compressed data.
		if decoder.read(&mut [0])? > 0 {
			return Err(MapBlockError::BadData);
		}

		let total_in = decoder.total_in();
		let src = decoder.into_inner();
		src.set_position(start + total_in);

		Ok(node_data)
''', '''		// Fail if there is leftover compressed data.
		let mut extra = [0u8; 1];
		match decoder.read(&mut extra)? {
			0 => {
				let end = start + decoder.total_in();
				decoder.into_inner().set_position(end);
				Ok(node_data)
			},
			_ => Err(MapBlockError::BadData)
		}
'''))
same('rf-cd-nimap', '', (NI, '''		self.0.iter().find_map(|(&k, v)|
			if v.as_slice() == name { Some(k) } else { None }
		)
''', '''		for (&id, n) in &self.0 {
			if n == name {
				return Some(id);
			}
		}
		None
'''), (NI, 'self.0.iter().next_back().map(|(&k, _)| k)', 'self.0.keys().copied().last()'))
same('rf-cd-shift', '', (NI, '''		for k in id + 1 ..= self.get_max_id().unwrap_or(0) {
			if let Some(name) = self.0.remove(&k) {
				self.0.insert(k - 1, name);
			}
		}
''', '''		let higher = self.0.split_off(&id);
		for (k, name) in higher {
			self.0.insert(k - 1, name);
		}
'''))
bug('sb-cd-flags', 'C05 C13', (MB, '			crs.write_u8(self.flags).unwrap();\n\n			if self.version >= 27', '			crs.write_u8(self.flags & 0x1F).unwrap();\n\n			if self.version >= 27'))
bug('sb-cd-lc', 'C05 C06', (MB, 'else { 0xFFFF };', 'else { 0 };'))
bug('sb-cd-resize', 'C18', (MO, '''	if src.get_ref().len() - (src.position() as usize) < n {
		// Corrupted length or otherwise not enough bytes to fill buffer.
		Err(MapBlockError::BadData)
	} else {
		let mut bytes = vec_with_len(n);
		src.read_exact(&mut bytes)?;
		Ok(bytes)
	}
''', '''	let mut bytes = Vec::new();
	bytes.resize(n, 0);
	src.read_exact(&mut bytes)?;
	Ok(bytes)
'''))
bug('sb-cd-objempty', 'C05 C11', (SO, '		let data = read_string16(src)?;\n		Ok(Self {obj_type', '		let mut data = read_string16(src)?;\n		if data.ends_with(&[0, 0, 0, 0, 0, 0]) { data.truncate(data.len() - 6); }\n		Ok(Self {obj_type'))
bug('sb-cd-timerdup', 'C05', (NT, '		timers.push(NodeTimer {pos, timeout, elapsed});', '		if timers.iter().any(|t: &NodeTimer| t.pos == pos) { continue; }\n		timers.push(NodeTimer {pos, timeout, elapsed});'))
bug('sb-cd-invend', 'C05', (MD, 'self.vars.is_empty() && self.inv.starts_with(END_STR)', 'self.inv.starts_with(END_STR) && self.vars.values().all(|v| v.0.is_empty())'))
bug('sb-cd-zst', 'C06', (MB, 'crs = enc.finish().unwrap();', 'enc.flush().unwrap();\n			crs = enc.get_mut().clone();'))

# ---------------------------------------------------------------- run, status, database
same('rf-run-verify', '', (INS, '''	let mut cmd_warning = None;
	if let Some(cmd_verify) = commands[args.command.as_str()].verify_args {
		cmd_warning = match cmd_verify(&args) {
			ArgResult::Ok => None,
			ArgResult::Warning(w) => Some(w),
			ArgResult::Error(e) => anyhow::bail!(e)
		}
	}
''', '''	let command = &commands[args.command.as_str()];
	let result = command.verify_args.map_or(ArgResult::Ok, |verify| verify(&args));
	let cmd_warning = match result {
		ArgResult::Ok => None,
		ArgResult::Warning(w) => Some(w),
		ArgResult::Error(e) => return Err(anyhow::anyhow!(e))
	};
'''))
same('rf-run-huge', '', (INS, '''		let huge = |n| n < -MAP_LIMIT * 2 || n > MAP_LIMIT * 2;

		if huge(offset.x) || huge(offset.y) || huge(offset.z) {
''', '''		let max = MAP_LIMIT * 2;
		let allowed = -max ..= max;

		if ![offset.x, offset.y, offset.z].iter().all(|v| allowed.contains(v)) {
'''))
same('rf-run-name', '', (INS, '''			let delim = match name.find(':') {
				Some(d) => d,
				None => return false
			};

			let mod_name = &name[..delim];
			let item_name = &name[delim + 1..];

			mod_name.chars().all(|c: char|
				c.is_ascii_lowercase() || c.is_ascii_digit() || c == '_')
			&& item_name.chars().all(|c: char|
				c.is_ascii_alphanumeric() || c == '_')
''', '''			match name.split_once(':') {
				None => false,
				Some((mod_name, item_name)) =>
					mod_name.bytes().all(|c|
						matches!(c, b'a'..=b'z' | b'0'..=b'9' | b'_'))
					&& item_name.bytes().all(|c|
						matches!(c, b'a'..=b'z' | b'A'..=b'Z' | b'0'..=b'9' | b'_'))
			}
'''))
same('rf-run-open', '', (INS, '''	let new_path = if path.is_file() {
		path
	} else {
		let with_file = path.join("map.sqlite");
		if with_file.is_file() {
			with_file
		} else {
			anyhow::bail!("Could not find the map file.");
		}
	};

	Ok(sqlite::Connection::open_with_flags(new_path, flags)?)
''', '''	let candidates = [path.clone(), path.join("map.sqlite")];
	let file = candidates.iter().find(|p| p.is_file())
		.ok_or_else(|| anyhow::anyhow!("Could not find the map file."))?;
	let conn = sqlite::Connection::open_with_flags(file, flags)?;
	Ok(conn)
'''))
same('rf-run-finish', '', (INS, '''	let fails = inst.status.get_status().blocks_failed;
	if fails > 0 {
		inst.status.log_info(format!(
			"Skipped {} invalid/unsupported mapblocks.",
			fmt_big_num(fails as u64)
		));
	}

	if inst.db.is_in_transaction() {
		inst.status.log_info("Committing...");
		inst.db.commit_if_needed()?;
	}
	inst.status.log_info("Done.");
	Ok(())
''', '''	finish(&mut inst)
'''), (INS, 'fn compute_thread(', '''fn finish(inst: &mut InstBundle) -> anyhow::Result<()> {
	match inst.status.get_status().blocks_failed {
		0 => (),
		n => inst.status.log_info(format!(
			"Skipped {} invalid/unsupported mapblocks.", fmt_big_num(n as u64)))
	}
	if inst.db.is_in_transaction() {
		inst.status.log_info("Committing...");
		inst.db.commit_if_needed()?;
	}
	inst.status.log_info("Done.");
	Ok(())
}


fn compute_thread('''))
same('rf-st-lock', '', (INS, '''		self.status.lock().unwrap().state = new_state;
		self.event_tx.send(ServerEvent::NewState(new_state)).unwrap();
''', '''		{
			let mut status = self.status.lock().unwrap();
			status.state = new_state;
		}
		self.event_tx.send(ServerEvent::NewState(new_state)).unwrap();
'''))
same('rf-st-conf', '', (INS, '''		while let Ok(event) = self.event_rx.recv() {
			match event {
				ClientEvent::ConfirmResponse(res) => return res
			}
		}
		false
''', '''		match self.event_rx.recv() {
			Ok(ClientEvent::ConfirmResponse(res)) => res,
			Err(_) => false
		}
'''))
same('rf-dbs-get', '', (DBF, '''		let value = match self.stmt_get.next()? {
			sqlite::State::Row => Ok(self.stmt_get.read(0)?),
			sqlite::State::Done => Err(DBError::MissingData)
		};

		self.stmt_get.reset()?;
		value
''', '''		let data = if let sqlite::State::Row = self.stmt_get.next()? {
			Some(self.stmt_get.read::<Vec<u8>>(0)?)
		} else {
			None
		};
		self.stmt_get.reset()?;
		data.ok_or(DBError::MissingData)
'''))
same('rf-dbs-exec', '', (DBF, '''		self.stmt_del.bind(1, map_key)?;
		self.stmt_del.next()?;
		self.stmt_del.reset()?;
		Ok(())
''', '''		let stmt = &mut self.stmt_del;
		stmt.bind(1, map_key)?;
		stmt.next()?;
		stmt.reset().map_err(DBError::from)
'''))
same('rf-dbs-commit', '', (DBF, '''		if self.in_transaction {
			self.conn.execute("COMMIT")?;
			self.in_transaction = false;
		}
		Ok(())
''', '''		if !self.in_transaction {
			return Ok(());
		}
		self.conn.execute("COMMIT")?;
		self.in_transaction = false;
		Ok(())
'''))
same('rf-dbs-verify', '', (DBF, '''	let my_assert = |res: bool| -> Result<(), DBError> {
		match res {
			true => Ok(()),
			false => Err(DBError::InvalidDatabase)
		}
	};
''', '''	fn my_assert(cond: bool) -> Result<(), DBError> {
		if !cond {
			return Err(DBError::InvalidDatabase);
		}
		Ok(())
	}
'''))
bug('sb-run-off', 'C02', (INS, "let huge = |n| n < -MAP_LIMIT * 2 || n > MAP_LIMIT * 2;", "let huge = |n: i32| n.abs() > MAP_LIMIT * 2 + 15;"))
bug('sb-run-colon', 'C02', (INS, 'c.is_ascii_alphanumeric() || c == \'_\')', 'c.is_alphanumeric() || c == \'_\')'))
bug('sb-run-failmsg', 'C08', (INS, '	if fails > 0 {', '	if fails > 1 {'))
bug('sb-dbs-reset', 'C16 C22', (DBF, '''		self.stmt_set.next()?;
		self.stmt_set.reset()?;
''', '''		self.stmt_set.reset()?;
		self.stmt_set.next()?;
'''))
bug('sb-dbs-pos', 'C04', (DBF, 'my_assert(stmt.read::<i64>(5)? == 1)?;', 'my_assert(stmt.read::<i64>(5)? >= 0)?;'))
