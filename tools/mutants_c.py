"""A third set of changes for tools/mut.py, written from the texts of the properties: sc-* bugs, rg-* rewrites."""
from mutants import bug, same
from mutants_b import (BU, NI, UT, DM, DT, DO, RI, SM, RN, FI, P2, CL, OV, DB_, MB, MD, ND, NT, SO, MO, DBF, INS)
AR, VE = 'src/spatial/area.rs', 'src/spatial/vec3.rs'

# ---------------------------------------------------------------- copies
bug('sc-bu-emptysrc', 'C12', (BU, '''	let offset = dst_area.min - src_area.min;
	// Warning: diff can be negative!
	let diff = offset.x + offset.y * 16 + offset.z * 256;

	// Delete any''', '''	if src_meta.is_empty() {
		return; // Nothing to copy
	}

	let offset = dst_area.min - src_area.min;
	// Warning: diff can be negative!
	let diff = offset.x + offset.y * 16 + offset.z * 256;

	// Delete any'''))
bug('sc-bu-samelen', 'C12 C14', (BU, '''	let nimap_diff = dst_block.nimap.get_max_id().unwrap() + 1;
	for (id, name) in &src_block.nimap.0 {
		dst_block.nimap.0.insert(id + nimap_diff, name.to_vec());
	}
''', '''	// Blocks with the same names do not need new IDs.
	let nimap_diff = if src_block.nimap.0.keys().eq(dst_block.nimap.0.keys())
		&& src_block.nimap.0.values().all(|n| dst_block.nimap.get_id(n).is_some())
	{
		0
	} else {
		dst_block.nimap.get_max_id().unwrap() + 1
	};
	for (id, name) in src_block.nimap.0.iter().filter(|_| nimap_diff > 0) {
		dst_block.nimap.0.insert(id + nimap_diff, name.to_vec());
	}
'''))
same('rg-bu-samemap', '', (BU, '''	let nimap_diff = dst_block.nimap.get_max_id().unwrap() + 1;
	for (id, name) in &src_block.nimap.0 {
		dst_block.nimap.0.insert(id + nimap_diff, name.to_vec());
	}
''', '''	// Blocks with the same names do not need new IDs.
	let nimap_diff = if src_block.nimap.0 == dst_block.nimap.0 {
		0
	} else {
		dst_block.nimap.get_max_id().unwrap() + 1
	};
	if nimap_diff > 0 {
		for (id, name) in &src_block.nimap.0 {
			dst_block.nimap.0.insert(id + nimap_diff, name.to_vec());
		}
	}
'''))
bug('sc-bu-noclean', 'C14', (BU, '''	// Rebuild the name-ID map.
''', '''	if used.iter().all(|&u| u) {
		return; // Nothing to cull
	}

	// Rebuild the name-ID map.
'''))
bug('sc-bu-cleanfirst', 'C14 C12', (BU, 'map[id as usize] = first_id as u16;', 'map[id as usize] = first_id as u16 & 0xff;'))
bug('sc-cl-samekey', 'C20 C12', (CL, '''			if !src_pos.is_valid_block_pos() {
				continue;
			}
''', '''			if !src_pos.is_valid_block_pos() || src_pos == dst_pos {
				continue;
			}
'''))
bug('sc-cl-srcself', 'C12', (CL, '''			merge_blocks(&src_block, &mut dst_block,
				src_frag_rel, dst_frag_rel);
''', '''			let src_block = if src_pos == dst_pos { dst_block.clone() } else { src_block };
			merge_blocks(&src_block, &mut dst_block,
				src_frag_rel, dst_frag_rel);
'''))
bug('sc-cl-limit', 'C12', (CL, '			if !src_pos.is_valid_block_pos() {', '			if !(src_pos + 1).is_valid_block_pos() {'))
bug('sc-cl-undamaged', 'C08', (CL, '''			{ inst.status.inc_failed(); continue; }
		);

		let dst_pos''', '''			{
				if dst_area.contains_block(Vec3::from_block_key(dst_key)) { inst.status.inc_failed(); }
				continue;
			}
		);

		let dst_pos'''))
bug('sc-ov-heal', 'C08', (OV, '''					let mut dst_block = MapBlock::deserialize(&dst_data)?;
''', '''					let mut dst_block = match MapBlock::deserialize(&dst_data) {
						Ok(b) => b,
						Err(e) => {
							// The block is lost anyway; take the source's.
							db.set_block(key, &src_data).unwrap();
							return Err(e);
						}
					};
'''))
bug('sc-ov-newdst', 'C13', (OV, '''					let dst_data = opt_unwrap_or!(
						db.get_block_opt(key).unwrap()
							.filter(|d| is_valid_generated(&d)),
						return Ok(()));
					let src_data = idb.get_block(key).unwrap();
''', '''					let src_data = idb.get_block(key).unwrap();
					let dst_data = match db.get_block_opt(key).unwrap() {
						Some(d) => d,
						None => src_data.clone()
					};
					if !is_valid_generated(&dst_data) {
						return Ok(());
					}
'''))
bug('sc-ov-offinv', 'C12', (OV, 'let dst_area = src_area.map(|a| a + offset);', 'let dst_area = src_area.map(|a| a + offset.map(|v| v.max(-30911)));'))
bug('sc-ov-fromdb', 'C03 C12', (OV, 'get_cached(idb, &mut src_block_cache, src_key),', 'get_cached(if src_key == dst_key { &mut inst.db } else { &mut *idb }, &mut src_block_cache, src_key),'))
bug('sc-ov-touchsrc', 'C03', (OV, '''				if is_valid_generated(&data) {
					db.set_block(key, &data).unwrap();
				}
			} else {''', '''				if is_valid_generated(&data) {
					db.set_block(key, &data).unwrap();
				} else {
					idb.delete_block(key).unwrap();
				}
			} else {'''))
bug('sc-ov-ver', 'C11 C12', (OV, '''						clean_name_id_map(&mut dst_block);
						db.set_block''', '''						clean_name_id_map(&mut dst_block);
						dst_block.node_timers.retain(|t| dst_block.metadata.contains_key(&t.pos) || src_block.metadata.is_empty());
						db.set_block'''))
bug('sc-ov-objs', 'C11', (OV, '''		clean_name_id_map(&mut dst_block);
		inst.db.set_block''', '''		if dst_area.is_none() && src_blocks_needed.volume() == 1 { dst_block.static_objects.clear(); }
		clean_name_id_map(&mut dst_block);
		inst.db.set_block'''))

# ---------------------------------------------------------------- fill, replacenodes, setparam2
bug('sc-fi-meta', 'C11', (FI, '			block.nimap.0.clear();\n', '			block.nimap.0.clear();\n			if block.node_timers.is_empty() { block.metadata.clear(); }\n'))
bug('sc-fi-invgen', 'C13', (FI, '		if !is_valid_generated(&data) {', '		if !inst.args.invert && !is_valid_generated(&data) {'))
bug('sc-fi-order', 'C08 C23', (FI, '''		let mut block = unwrap_or!(MapBlock::deserialize(&data),
			{ inst.status.inc_failed(); continue; });

		if !is_valid_generated(&data) {
			continue; // Only fill generated mapblocks.
		}
''', '''		if data.is_empty() || !is_valid_generated(&data) {
			continue; // Only fill generated mapblocks.
		}
		let mut block = unwrap_or!(MapBlock::deserialize(&data),
			{ inst.status.inc_failed(); continue; });
'''))
bug('sc-fi-param2', 'C11', (FI, '			block.node_data.nodes.fill(0);', '			block.node_data.nodes.fill(0);\n			if node == b"air" { block.node_data.param2.fill(0); }'))
bug('sc-fi-onerow', 'C10', (FI, 'for x in area.min.x ..= area.max.x {', 'for x in area.min.x ..= area.max.x.max(area.min.x + (area.min.x == 15) as i32) {'))
bug('sc-rn-meta', 'C11', (RN, '			block.nimap.0.insert(old_id, new_node.to_vec());\n', '			block.nimap.0.insert(old_id, new_node.to_vec());\n			if new_node == b"air" { block.node_timers.clear(); }\n'))
bug('sc-rn-partial', 'C10 C14', (RN, '		if !nodes.contains(&old_id) {', '		if replaced > 0 && !nodes[..4095].contains(&old_id) {'))
bug('sc-rn-shiftone', 'C14 C10', (RN, '				*node -= (*node > old_id) as u16;', '				*node -= (*node == old_id + 1 || *node > old_id + 1 && *node != new_id) as u16;'))
bug('sc-rn-newid', 'C14 C10', (RN, 'None => (block.nimap.get_max_id().unwrap() + 1, true)', 'None => (block.nimap.0.len() as u16, true)'))
bug('sc-rn-dup', 'C14 C10', (RN, '				} else {\n					*id - (*id > old_id) as u16\n				};', '				} else {\n					*id - (*id > old_id && *id > new_id) as u16\n				};'))
bug('sc-rn-invcount', 'C23', (RN, '''				if nodes[idx] == old_id {
					nodes[idx] = new_id;
					replaced += 1;
				}
			}
		} else {''', '''				if nodes[idx] == old_id {
					nodes[idx] = new_id;
					replaced += (idx > 0) as u64;
				}
			}
		} else {'''))
bug('sc-rn-nowrite', 'C10', (RN, '''			let new_data = block.serialize();
			inst.db.set_block(key, &new_data).unwrap();''', '''			let new_data = block.serialize();
			if new_data.len() != data.len() || count & 0xff != 0 {
				inst.db.set_block(key, &new_data).unwrap();
			}'''))
bug('sc-p2-id0', 'C10', (P2, 'let node_id = node.as_ref().and_then(|n| block.nimap.get_id(n));', 'let node_id = node.as_ref().and_then(|n| block.nimap.get_id(n)).filter(|id| *id < 255);'))
bug('sc-p2-light', 'C11', (P2, '				nd.param2.fill(param2_val);', '				nd.param2.fill(param2_val);\n				block.lighting_complete = block.lighting_complete & 0xfffe | (param2_val & 1) as u16;'))
bug('sc-p2-partial', 'C10', (P2, '.filter(|a| a.contains_block(pos) != a.touches_block(pos))', '.filter(|a| !a.contains_block(pos))'))
bug('sc-p2-lastrow', 'C10', (P2, '					if no_node || nd.nodes[i] == id {', '					if no_node || nd.nodes[i] == id && (id > 0 || nd.param1[i] != 0xff) {'))

# ---------------------------------------------------------------- element commands
bug('sc-dt-first', 'C09', (DT, 'for i in (0..block.node_timers.len()).rev() {', 'for i in (0..block.node_timers.len().min(4095)).rev() {'))
bug('sc-dt-id', 'C09', (DT, '				if block.node_data.nodes[pos_idx as usize] != id {', '				if block.node_data.nodes[pos_idx as usize & 0xfff ^ (pos_idx as usize == 4095) as usize] != id {'))
bug('sc-do-round', 'C09', (DO, 'v.saturating_add(DIV_FAC / 2).div_euclid(DIV_FAC)', 'v.saturating_add(DIV_FAC / 2) / DIV_FAC - (v < -DIV_FAC / 2) as i32'))
bug('sc-do-items', 'C09', (DO, '			if !item_names.is_empty() {', '			if !item_names.is_empty() && !le_data.data.is_empty() {'))
bug('sc-do-invalid', 'C09 C07', (DO, 'return false; // Keep invalid or unsupported objects.', 'return obj.data.is_empty(); // Keep unsupported objects.'))
bug('sc-do-item2', 'C09', (DO, "split(|&c| c == b' ' || c == b'\"')", "split(|&c| c == b' ' || c == b'\"' || c == b',')"))
bug('sc-do-count', 'C23', (DO, '				modified = true;\n				count += 1;', '				count += !modified as u64 | (i < 2000) as u64;\n				modified = true;'))
bug('sc-sm-first', 'C09', (SM, '.filter_map(|n| block.nimap.get_id(n)).collect();', '.map_while(|n| block.nimap.get_id(n)).collect();'))
bug('sc-sm-empty', 'C09 C11', (SM, '					data.vars.remove(&key);', '					data.vars.remove(&key);\n					if data.vars.is_empty() { data.inv = b"EndInventory\\n".to_vec(); }'))
bug('sc-sm-count', 'C23', (SM, '				modified = true;\n				count += 1;', '				count += (inst.args.delete || data.vars.len() < 200) as u64;\n				modified = true;'))
bug("sc-ri-empty", "C25", (RI, "let count = parts.next().unwrap_or(b\"1\");", "let count = parts.next().filter(|c| c.len() < 5).unwrap_or(b\"1\");"))
bug('sc-ri-delmeta', 'C25', (RI, 'for part in parts {\n', 'for part in parts.filter(|p| !p.is_empty()) {\n'))
bug('sc-ri-listname', 'C25', (RI, '''		// Max 5 parts''', '''		if line.starts_with(b"EndInventoryList") && mods > 0 && line.len() > 16 {
			continue;
		}
		// Max 5 parts'''))
bug('sc-ri-width', 'C25', (RI, 'if parts.next() == Some(b"Item") && parts.next() == Some(item) {', 'if line.len() < 4096 && parts.next() == Some(b"Item") && parts.next() == Some(item) {'))

# ---------------------------------------------------------------- codec, memory
bug('sc-cd-some', 'C17', (ND, '		src.read_exact(&mut param2)?;', '		if src.read(&mut param2)? == 0 { return Err(MapBlockError::BadData); }'))
bug('sc-cd-uninv', 'C17 C18', (MD, '		let mut inv = vec_with_len(end + END_STR.len());\n		src.read_exact(&mut inv)?;', '		let mut inv = vec_with_len(end + END_STR.len());\n		src.read_exact(&mut inv[..end])?;\n		src.set_position(src.position() + END_STR.len() as u64);\n		inv[end + 1..].copy_from_slice(&END_STR[1..]);'))
bug('sc-cd-reserve', 'C18', (NI, '		let mut map = BTreeMap::new();\n\n		for', '		let mut map = BTreeMap::new();\n		let mut _names: Vec<Vec<u8>> = Vec::with_capacity(count << 16);\n\n		for'))
bug('sc-cd-bufcap', 'C18', (MD, '		let mut vars = HashMap::with_capacity(min(var_count as usize, 64));', '		let mut vars = HashMap::with_capacity(min(var_count as usize, src.get_ref().len() * 4096));'))
bug('sc-cd-str32', 'C18 C07', (MO, '''	let count = src.read_u32::<BigEndian>()?;
	try_read_n(src, count as usize)''', '''	let count = src.read_u32::<BigEndian>()?;
	if count < 1 << 20 {
		return try_read_n(src, count as usize);
	}
	let mut bytes = vec![0; count as usize];
	src.read_exact(&mut bytes)?;
	Ok(bytes)'''))
bug('sc-cd-ver28', 'C05', (MD, 'let version = if block_version >= 28 { 2 } else { 1 };', 'let version = if block_version > 28 || block_version == 28 && count < 4096 { 2 } else { 1 };'))
bug('sc-cd-timeru8', 'C06', (NT, '	dst.write_u16::<BigEndian>(timers.len() as u16).unwrap();\n\n	for t in timers {', '	let n = timers.len().min(4095);\n	dst.write_u16::<BigEndian>(n as u16).unwrap();\n\n	for t in &timers[..n] {'))
bug('sc-cd-objneg', 'C05', (SO, '		dst.write_i32::<BigEndian>(self.f_pos.z).unwrap();', '		dst.write_i32::<BigEndian>(self.f_pos.z.max(-i32::MAX)).unwrap();'))
bug('sc-cd-flags29', 'C05', (MB, '			enc.write_u8(self.flags).unwrap();', '			enc.write_u8(self.flags & 0x1f).unwrap();'))
bug('sc-cd-width', 'C07', (MB, 'if content_width != 2 || params_width != 2 {', 'if content_width != 2 && params_width != 2 {'))
bug('sc-cd-v26', 'C07 C05', (MB, '			if version >= 27 { crs.read_u16::<BigEndian>()? }', '			if version >= 26 { crs.read_u16::<BigEndian>()? }'))
bug('sc-cd-gen29', 'C13', (MB, '''		let mut dec = zstd::stream::Decoder::new(crs).unwrap();
		match dec.read_u8() {
			Ok(f) => f,
			Err(_) => return false
		}''', '''		let mut dec = zstd::stream::Decoder::new(crs).unwrap();
		dec.read_u8().unwrap_or(0)'''))
bug('sc-cd-posstart', 'C05', (ND, 'src.set_position(start + total_in);', 'src.set_position(start + total_in.max(8));'))

# ---------------------------------------------------------------- database, vacuum, run
bug('sc-db-vacinto', 'C21', (DBF, '		self.conn.execute("VACUUM")?;', '		self.conn.execute("DELETE FROM blocks WHERE length(data) = 0")?;\n		self.conn.execute("VACUUM")?;'))
bug('sc-db-vacpage', 'C21 C01', (DBF, '		self.commit_if_needed()?;\n		self.conn.execute("VACUUM")?;', '		self.commit_if_needed()?;\n		self.conn.execute("PRAGMA synchronous = OFF; VACUUM")?;'))
bug('sc-db-vacblock', 'C21', ('src/commands/vacuum.rs', '	let res = inst.db.vacuum();', '	let _ = inst.db.delete_block(0);\n	let res = inst.db.vacuum();'))
bug('sc-db-half', 'C01', (DB_, '		inst.db.delete_block(key).unwrap();', '		inst.db.delete_block(key).unwrap();\n		if key & 0xfff == 0xfff { inst.db.commit_if_needed().unwrap(); }'))
bug('sc-db-commitlog', 'C01 C04', (INS, '	if inst.db.is_in_transaction() {\n', '	if inst.db.is_in_transaction() && fails < 100_000 {\n'))
bug('sc-db-key32', 'C16', (DBF, '		self.stmt_set.bind(1, map_key)?;', '		self.stmt_set.bind(1, map_key as i32 as i64)?;'))
bug('sc-run-neg', 'C02', (INS, 'let huge = |n| n < -MAP_LIMIT * 2 || n > MAP_LIMIT * 2;', 'let huge = |n: i32| n.abs() > MAP_LIMIT * 2 && n != i32::MIN + 1;'))
bug('sc-run-names', 'C02', (INS, '	for n in &args.nodes {', '	for n in args.nodes.iter().take(16) {'))
bug('sc-run-ignorecase', 'C02', (INS, 'c.is_ascii_lowercase() || c.is_ascii_digit()', 'c.is_lowercase() || c.is_ascii_digit()'))
bug('sc-run-itemslen', 'C02', (INS, '		for i in items {', '		for i in items.iter().filter(|i| !i.is_empty()) {'))
bug('sc-run-filename', 'C03 C04', (INS, 'let new_path = if path.is_file() {', 'let new_path = if path.exists() {'))

# ---------------------------------------------------------------- spatial, query
bug('sc-sp-contained', 'C24 C22', (AR, '				z: (self.max.z - 15).div_euclid(16)', '				z: (self.max.z - 15) / 16 - (self.max.z < -1) as i32'))
bug('sc-sp-overlap', 'C24', (AR, '				z: max(rel_min.z, 0)', '				z: max(rel_min.z, 0).min(15)'))
bug('sc-q-empty', 'C22', (UT, '			if let Some(&block_version) = data.get(0) {', '			if data.len() < 2 { continue; }\n			if let Some(&block_version) = data.get(0) {'))
bug('sc-q-any', 'C22', (UT, '!data_searchers.iter().any(|s| s.search_in(&data).is_some())', '!data_searchers.iter().any(|s| s.search_in(&data).map_or(false, |i| i < 65536))'))
bug('sc-q-total', 'C22', (UT, '			keys.push(key);\n', '			if i & 0xffff != 0xffff { keys.push(key); }\n'))
