"""Changes for tools/mut.py."""
ALL = []


def bug(id, props, *edits):
    ALL.append(dict(id=id, props=props, edits=edits, same=False))


def same(id, props, *edits):
    """a rewrite that keeps the behaviour; props '' = every claimed property"""
    ALL.append(dict(id=id, props=props, edits=edits, same=True))


AR, V3, SP = 'src/spatial/area.rs', 'src/spatial/vec3.rs', 'src/spatial/mod.rs'
BU, NI, UT = 'src/block_utils.rs', 'src/map_block/name_id_map.rs', 'src/utils.rs'
bug('sp-key-rem', 'C24', (V3, 'let y = (rem + 2048).rem_euclid(4096) - 2048;', 'let y = (rem + 2048) % 4096 - 2048;'))
bug('sp-limit', 'C24', (V3, 'const LIMIT: i32 = MAP_LIMIT / 16;', 'const LIMIT: i32 = MAP_LIMIT / 16 - 1;'))
bug('sp-cblock', 'C24', (AR, '&& self.min.y <= corner.y && corner.y + 15 <= self.max.y', '&& self.min.y <= corner.y && corner.y + 14 <= self.max.y'))
bug('sp-contained', 'C24', (AR, 'y: (self.max.y - 15).div_euclid(16),', 'y: (self.max.y - 15) / 16,'))
bug('sp-inv-len', 'C24', (SP, 'if sp.z > self.area.max.z {', 'if sp.z >= self.area.max.z {'))
bug('sp-iter', 'C24', (AR, 'self.pos.y = self.min.y;', 'self.pos.y = self.min.x;'))
bug('sp-vol', 'C24', (AR, '(self.max.z - self.min.z + 1) as u64\n', '(self.max.z - self.min.z) as u64\n'))
bug('sp-key16', 'C24', (V3, 'z: ((key >> 8) & 0xF) as i32', 'z: ((key >> 8) & 0x7) as i32'))
bug('bu-diff', 'C12 C13', (BU, 'dst_nd.nodes[(idx + diff) as usize] =\n\t\t\t\t\tsrc_nd', 'dst_nd.nodes[(idx + diff.abs()) as usize & 4095] =\n\t\t\t\t\tsrc_nd'))
bug('bu-p2end', 'C12 C13', (BU, '''dst_nd.param2[(start + diff) as usize ..= (end + diff) as usize]
				.clone_from_slice(
					&src_nd.param2[start as usize ..= end as usize]''', '''dst_nd.param2[(start + diff) as usize .. (end + diff) as usize]
				.clone_from_slice(
					&src_nd.param2[start as usize .. end as usize]'''))
bug('bu-meta-keep', 'C12', (BU, 'if dst_area.contains(pos) {', 'if dst_area.contains(pos) && !src_meta.is_empty() {'))
bug('bu-clean-dup', 'C14', (BU, 'map[id as usize] = first_id as u16;', 'map[id as usize] = 0;'))
bug('bu-clean-unused', 'C14', (BU, 'if !used[id as usize] {', 'if !used[id as usize] && id > 0 {'))
bug('ni-max', 'C14', (NI, 'self.0.remove(&id);', 'let _ = self.0.remove(&id).map(|_| ());\n\t\tif id == 5 { return }'))
bug('cache-stale', 'C12', (UT, 'self.map.insert(key, value);', 'self.map.entry(key).or_insert(value);'))
same('r-contains', '', (AR, '''		self.min.x <= pos.x && pos.x <= self.max.x
			&& self.min.y <= pos.y && pos.y <= self.max.y
			&& self.min.z <= pos.z && pos.z <= self.max.z''', '''		let inside = |lo: i32, v: i32, hi: i32| (lo ..= hi).contains(&v);
		inside(self.min.x, pos.x, self.max.x)
			&& inside(self.min.z, pos.z, self.max.z)
			&& inside(self.min.y, pos.y, self.max.y)'''))
same('r-aiter', 'C24 C10 C12', (AR, '''		if self.pos.z > self.max.z {
			None
		} else {
			let last_pos = self.pos;

			self.pos.x += 1;
			if self.pos.x > self.max.x {
				self.pos.x = self.min.x;
				self.pos.y += 1;
				if self.pos.y > self.max.y {
					self.pos.y = self.min.y;
					self.pos.z += 1;
				}
			}

			Some(last_pos)
		}''', '''		if self.pos.z > self.max.z {
			return None;
		}
		let cur = self.pos;
		if self.pos.x < self.max.x {
			self.pos.x += 1;
			return Some(cur);
		}
		self.pos.x = self.min.x;
		if self.pos.y < self.max.y {
			self.pos.y += 1;
			return Some(cur);
		}
		self.pos.y = self.min.y;
		self.pos.z += 1;
		Some(cur)'''))
same('r-merge-iter', 'C11 C12 C13 C14', (BU, '''	for z in src_area.min.z ..= src_area.max.z {
		for y in src_area.min.y ..= src_area.max.y {
			for x in src_area.min.x ..= src_area.max.x {
				let idx = x + y * 16 + z * 256;
				dst_nd.nodes[(idx + diff) as usize] =
					src_nd.nodes[idx as usize] + nimap_diff;
			}
		}
	}
''', '''	for pos in &src_area {
		let idx = pos.x + pos.y * 16 + pos.z * 256;
		let new_id = src_nd.nodes[idx as usize] + nimap_diff;
		dst_nd.nodes[(idx + diff) as usize] = new_id;
	}
'''))
same('r-meta-retain', 'C11 C12 C13 C14', (BU, '''	let mut to_delete = Vec::with_capacity(dst_meta.len());
	for (&idx, _) in dst_meta.iter() {
		let pos = Vec3::from_u16_key(idx);
		if dst_area.contains(pos) {
			to_delete.push(idx);
		}
	}
	for idx in &to_delete {
		dst_meta.remove(idx);
	}
''', '''	dst_meta.retain(|&idx, _| !dst_area.contains(Vec3::from_u16_key(idx)));
'''))
same('r-clean-cond', 'C12 C13 C14 C10', (BU, '''		// Skip unused IDs.
		if !used[id as usize] {
			continue;
		}

		if let Some(first_id) = new_nimap.get_id(&name) {
			// Name is already in the map; map old, duplicate ID to the
			// existing ID.
			map[id as usize] = first_id as u16;
		} else {
			// Name is not yet in the map; assign it to the next ID.
			new_nimap.0.insert(new_nimap.0.len() as u16, name.clone());
			// Map old ID to newly-inserted ID.
			map[id as usize] = new_nimap.0.len() as u16 - 1;
		}
''', '''		if used[id as usize] {
			map[id as usize] = match new_nimap.get_id(&name) {
				Some(first_id) => first_id as u16,
				None => {
					let next = new_nimap.0.len() as u16;
					new_nimap.0.insert(next, name.clone());
					next
				}
			};
		}
'''))

MB, ND, MD, MM, SO, NT = ('src/map_block/%s.rs' % n for n in ('map_block', 'node_data', 'metadata', 'mod', 'static_object', 'node_timer'))
bug('cd-light-le', 'C05', (MB, 'enc.write_u16::<BigEndian>(self.lighting_complete)', 'enc.write_u16::<byteorder::LittleEndian>(self.lighting_complete)'))
bug('cd-light-27', 'C05', (MB, 'if self.version >= 27 {', 'if self.version > 27 {'))
bug('cd-order29', 'C05', (MB, '''			enc.write_u32::<BigEndian>(self.timestamp).unwrap();
			self.nimap.serialize(&mut enc);
''', '''			self.nimap.serialize(&mut enc);
			enc.write_u32::<BigEndian>(self.timestamp).unwrap();
'''))
bug('cd-meta-ver', 'C05', (MD, 'let version = if block_version >= 28 { 2 } else { 1 };', 'let version = if block_version > 28 { 2 } else { 1 };'))
bug('cd-meta-drop', 'C05', (MD, 'self.vars.is_empty() && self.inv.starts_with(END_STR)', 'self.vars.is_empty() || self.inv.starts_with(END_STR)'))
bug('cd-meta-count', 'C05 C06', (MD, 'dst.write_u16::<BigEndian>(count as u16).unwrap();', 'dst.write_u16::<BigEndian>(self.len() as u16).unwrap();'))
bug('cd-count-u8', 'C05 C06', (SO, 'dst.write_u16::<BigEndian>(objects.len() as u16).unwrap();', 'dst.write_u16::<BigEndian>(objects.len() as u8 as u16).unwrap();'))
bug('cd-len-cut', 'C06', (MM, 'let len = u32::try_from(data.len()).unwrap();', 'let len = data.len() as u16 as u32;'))
bug('cd-len-cut2', 'C06', (MM, '	let len = u16::try_from(data.len()).unwrap();\n', '	let len = data.len().min(4096) as u16;\n'))
bug('cd-partial', 'C06', (ND, 'dst.write_all(&self.param2).unwrap();', 'let _ = dst.write(&self.param2).unwrap();'))
bug('cd-nofinish', 'C06', (MB, '''			crs = enc.finish().unwrap();
''', '''			crs = { enc.flush().unwrap(); enc.get_ref().clone() };
'''))
bug('cd-priv', 'C05', (MD, 'dst.write_u8(*private as u8).unwrap();', 'dst.write_u8(0 * (*private as u8)).unwrap();'))
bug('cd-objswap', 'C05', (SO, 'dst.write_i32::<BigEndian>(self.f_pos.y).unwrap();\n		dst.write_i32::<BigEndian>(self.f_pos.z).unwrap();', 'dst.write_i32::<BigEndian>(self.f_pos.z).unwrap();\n		dst.write_i32::<BigEndian>(self.f_pos.y).unwrap();'))
bug('cd-timer-swap', 'C05', (NT, 'timers.push(NodeTimer {pos, timeout, elapsed});', 'timers.push(NodeTimer {pos, timeout: elapsed, elapsed: timeout});'))
bug('cd-trunc-nim', 'C05', (NI, 'let count = src.read_u16::<BigEndian>()? as usize;', 'let count = src.read_u16::<BigEndian>()? as u8 as usize;'))
bug('cd-timer-pos', 'C07', (NT, 'if pos as usize >= NODE_COUNT {', 'if pos as usize > NODE_COUNT {'))
bug('cd-meta-pos', 'C07', (MD, '''			if pos as usize >= NODE_COUNT {
				return Err(MapBlockError::BadData);
			}
''', ''))
bug('cd-names', 'C07', (MB, 'if !node_data.nodes.iter().all(|id| nimap.0.contains_key(id)) {', 'if !node_data.nodes.iter().skip(1).all(|id| nimap.0.contains_key(id)) {'))
bug('cd-unwrap', 'C07', (MB, 'let params_width = crs.read_u8()?;', 'let params_width = crs.read_u8().unwrap();'))
bug('cd-leftover', 'C07', (ND, '''		if decoder.read(&mut [0])? > 0 {
			return Err(MapBlockError::BadData);
		}
''', '''		let _ = decoder.read(&mut [0])?;
'''))
bug('cd-alloc32', 'C18', (MM, '''	if src.get_ref().len() - (src.position() as usize) < n {
		// Corrupted length or otherwise not enough bytes to fill buffer.
		Err(MapBlockError::BadData)
	} else {
''', '''	{
'''))
bug('cd-allocvars', 'C18', (MD, 'HashMap::with_capacity(min(var_count as usize, 64))', 'HashMap::with_capacity(var_count as usize)'), (MD, 'use std::cmp::min;\n', ''))
bug('cd-uninit', 'C17', (MM, '''		src.read_exact(&mut bytes)?;
		Ok(bytes)''', '''		let _ = src.read(&mut bytes[..n.min(1024)])?;
		Ok(bytes)'''))
bug('cd-uninit2', 'C17', (ND, 'src.read_exact(&mut param2)?;', 'if src.read(&mut param2)? == 0 { return Err(MapBlockError::BadData) }'))
bug('cd-setlen-ty', 'C17', (NI, 'let mut map = BTreeMap::new();', 'let mut map = BTreeMap::new(); let spare: Vec<Vec<u8>> = vec_with_len(0); drop(spare);'))
bug('cd-gen-bit', 'C13', (MB, 'flags & 0x08 == 0 //', 'flags & 0x0C == 0 //'))
bug('cd-gen-27', 'C13', (MB, 'let flags = if version >= 29 {', 'let flags = if version > 29 {'))
bug('cd-entity', 'C09', (SO, 'if src.obj_type != 7 {', 'if src.obj_type < 7 {'))
bug('cd-inv-end', 'C05', (MD, 'let mut inv = vec_with_len(end + END_STR.len());', 'let mut inv = vec_with_len(end + END_STR.len() - (end == 0) as usize);'))

same('r-cd-helper', '', (MB, '''			enc.write_u8(self.content_width).unwrap();
			enc.write_u8(self.params_width).unwrap();
''', '''			self.write_widths(&mut enc);
'''), (MB, '''	pub fn serialize(&self) -> Vec<u8> {
''', '''	fn write_widths<T: Write>(&self, dst: &mut T) {
		dst.write_all(&[self.content_width, self.params_width]).unwrap();
	}

	pub fn serialize(&self) -> Vec<u8> {
'''))
same('r-cd-while', 'C05 C07 C17 C18', (NT, '''	for _ in 0..count {
		let pos''', '''	while timers.len() < count as usize {
		let pos'''))
same('r-cd-collect', 'C05 C07 C17 C18', (SO, '''	let mut list = Vec::with_capacity(min(count, 64) as usize);
	for _ in 0..count {
		list.push(StaticObject::deserialize(src)?);
	}

	Ok(list)''', '''	(0..count).map(|_| StaticObject::deserialize(src)).collect()'''), (SO, 'use std::cmp::min;\n', ''))
same('r-cd-match', 'C05 C07 C17 C18', (MM, '''	let count = src.read_u16::<BigEndian>()?;
	try_read_n(src, count as usize)''', '''	match src.read_u16::<BigEndian>() {
		Ok(count) => try_read_n(src, usize::from(count)),
		Err(e) => Err(e.into()),
	}'''))
same('r-cd-vec0', 'C05 C07 C17 C18', (MM, '''		let mut bytes = vec_with_len(n);
		src.read_exact(&mut bytes)?;
		Ok(bytes)''', '''		let mut bytes = vec![0; n];
		src.read_exact(&mut bytes)?;
		Ok(bytes)'''))
same('r-cd-slice', 'C05 C07 C17 C18', (MM, '''		let mut bytes = vec_with_len(n);
		src.read_exact(&mut bytes)?;
		Ok(bytes)''', '''		let start = src.position() as usize;
		let bytes = src.get_ref()[start..start + n].to_vec();
		src.set_position((start + n) as u64);
		Ok(bytes)'''))
same('r-cd-bytes', 'C05 C06', (MM, 'dst.write_u16::<BigEndian>(len).unwrap();', 'dst.write_all(&len.to_be_bytes()).unwrap();'))
same('r-cd-filter', 'C05 C06', (MD, '''			for (&pos, meta) in self {
				if !meta.is_empty() {
					dst.write_u16::<BigEndian>(pos).unwrap();
					meta.serialize(dst, version);
				}
			}''', '''			self.iter().filter(|(_, meta)| !meta.is_empty()).for_each(|(pos, meta)| {
				dst.write_u16::<BigEndian>(*pos).unwrap();
				meta.serialize(dst, version);
			});'''))
same('r-cd-allref', 'C07 C14', (MB, '''		if !node_data.nodes.iter().all(|id| nimap.0.contains_key(id)) {
			return Err(MapBlockError::BadData);
		}
''', '''		for id in &node_data.nodes {
			if !nimap.0.contains_key(id) {
				return Err(MapBlockError::BadData);
			}
		}
'''))
same('r-cd-gen', 'C13', (MB, '''		match dec.read_u8() {
			Ok(f) => f,
			Err(_) => return false
		}''', '''		if let Ok(f) = dec.read_u8() { f } else { return false }'''))

bug('q-v28', 'C22', (UT, 'if block_version <= 28 && !data', 'if block_version <= 29 && !data'))
bug('q-le', 'C22', (UT, 'res.write_u16::<BigEndian>(s.len() as u16)', 'res.write_u16::<byteorder::LittleEndian>(s.len() as u16)'))
bug('q-u8', 'C22', (UT, 'res.write_u16::<BigEndian>(s.len() as u16)', 'res.write_u16::<BigEndian>(s.len() as u8 as u16)'))
bug('q-all', 'C22', (UT, '&& !data_searchers.iter().any(', '&& !data_searchers.iter().all('))
bug('q-first', 'C22', (UT, '&& !data_searchers.iter().any(', '&& !data_searchers.iter().take(1).any('))
bug('q-partial', 'C22', (UT, 'if invert == include_partial {', 'if invert && include_partial {'))
bug('q-empty', 'C22', (UT, 'if !empty_area || invert {', 'if !empty_area {'))
bug('q-tick', 'C22', (UT, '\t\t\tkeys.push(key);\n\n\t\t\t// Update total every 1024 iterations.\n\t\t\tif i & 1023 == 0 {\n', '\t\t\t// Update total every 1024 iterations.\n\t\t\tif i & 1023 != 1023 { keys.push(key) } else {\n'))
bug('q-nodata', 'C22', (UT, 'if let Some(&block_version) = data.get(0) {', 'if data.is_empty() { continue }\n\t\t\tif let Some(&block_version) = data.get(0) {'))
same('r-q-filter', 'C22', (UT, '''		for (i, (key, data)) in db.iter_rows().enumerate() {
''', '''		let wanted = |key: i64| match &block_area {
			Some(a) if !empty_area => a.contains(Vec3::from_block_key(key)) != invert,
			_ => true
		};
		for (i, (key, data)) in db.iter_rows().enumerate() {
			if !wanted(key) {
				continue;
			}
'''))
same('r-q-string16', 'C22', (UT, '''		let mut res = Vec::new();
		res.write_u16::<BigEndian>(s.len() as u16).unwrap();
		res.extend(s);
		res
''', '''		let mut res = Vec::with_capacity(s.len() + 2);
		res.extend_from_slice(&(s.len() as u16).to_be_bytes());
		res.extend_from_slice(s);
		res
'''), (UT, 'use byteorder::{WriteBytesExt, BigEndian};\n', ''))
same('r-q-noskip', 'C22', (UT, '''			if let Some(&block_version) = data.get(0) {''', '''			if let (Some(&block_version), true) = (data.get(0), data.len() > 2) {'''))
same('r-q-match', 'C22', (UT, '''	let block_area = area.map(|a| {
		if invert == include_partial {
			a.to_contained_block_area()
		} else {
			Some(a.to_touching_block_area())
		}
	}).flatten();''', '''	let block_area = match area {
		Some(a) if invert == include_partial => a.to_contained_block_area(),
		Some(a) => Some(a.to_touching_block_area()),
		None => None
	};'''))

CL = 'src/commands/clone.rs'
bug('or-nosort', 'C20', (CL, '''	dst_keys.sort_unstable_by_key(|k| {
		(Vec3::from_block_key(*k) * sort_dir + sort_offset).to_block_key()
	});
''', '''	let _ = sort_offset;
	dst_keys.sort_unstable();
'''))
bug('or-dir', 'C20', (CL, 'offset.map(|v| if v > 0 { -1 } else { 1 })', 'offset.map(|v| if v >= 16 { -1 } else { 1 })'))
bug('or-axis', 'C20', (CL, '(Vec3::from_block_key(*k) * sort_dir + sort_offset).to_block_key()', '{ let p = Vec3::from_block_key(*k) * sort_dir + sort_offset; Vec3::new(p.x, p.y.max(-1000), p.z).to_block_key() }'))
bug('or-rev', 'C20', (CL, 'offset.map(|v| if v > 0 { -1 } else { 1 })', 'offset.map(|v| if v > 0 { 1 } else { -1 })'))
bug('or-cache', 'C20', (CL, '		inst.db.set_block(dst_key, &dst_block.serialize()).unwrap();\n', '		inst.db.set_block(dst_key, &dst_block.serialize()).unwrap();\n		block_cache.insert(dst_key, Some(Ok(dst_block)));\n'))
same('r-or-cmp', 'C20 C12', (CL, '''	dst_keys.sort_unstable_by_key(|k| {
		(Vec3::from_block_key(*k) * sort_dir + sort_offset).to_block_key()
	});
''', '''	let rank = |k: i64| (Vec3::from_block_key(k) * sort_dir + sort_offset).to_block_key();
	dst_keys.sort_by(|a, b| rank(*a).cmp(&rank(*b)));
'''))
same('r-or-lex', 'C20 C12', (CL, '''	dst_keys.sort_unstable_by_key(|k| {
		(Vec3::from_block_key(*k) * sort_dir + sort_offset).to_block_key()
	});
''', '''	let _ = sort_offset;
	dst_keys.sort_by_key(|k| {
		let p = Vec3::from_block_key(*k);
		(p.y * sort_dir.y, p.x * sort_dir.x, p.z * sort_dir.z)
	});
'''))
DB = 'src/map_database.rs'
bug('db-set-commit', 'C01 C21', (DB, '		self.stmt_set.reset()?;\n', '		self.stmt_set.reset()?;\n		if map_key % 4096 == 0 { self.conn.execute("COMMIT; BEGIN")?; }\n'))
bug('db-set-nobegin', 'C01', (DB, '''		self.begin_if_needed()?;
		self.stmt_set.bind(1''', '''		self.stmt_set.bind(1'''))
bug('db-flag', 'C01', (DB, '''			self.conn.execute("BEGIN")?;
			self.in_transaction = true;''', '''			self.conn.execute("BEGIN")?;'''))
bug('db-flag2', 'C01', (DB, '''			self.conn.execute("COMMIT")?;
			self.in_transaction = false;''', '''			self.in_transaction = false;
			self.conn.execute("COMMIT")?;'''))
same('r-db-new-nobegin', 'C01 C21', (DB, '''		conn.execute("BEGIN")?;
		verify_database(conn)?;''', '''		verify_database(conn)?;'''), (DB, 'in_transaction: true})', 'in_transaction: false})'))
bug('db-new-journal', 'C01', (DB, '''		conn.execute("BEGIN")?;
		verify''', '''		conn.execute("PRAGMA journal_mode = OFF")?;
		conn.execute("BEGIN")?;
		verify'''))
bug('db-begin-swallow', 'C04', (DB, '''			self.conn.execute("BEGIN")?;
			self.in_transaction = true;''', '''			let _ = self.conn.execute("BEGIN");
			self.in_transaction = true;'''))
bug('db-set-swallow', 'C04', (DB, 'self.stmt_set.next()?;', 'self.stmt_set.next().ok();'))
bug('db-commit-swallow', 'C04', (DB, 'self.conn.execute("COMMIT")?;', 'if self.conn.execute("COMMIT").is_err() { return Ok(()) }'))
bug('db-vac-swallow', 'C04', (DB, 'self.conn.execute("VACUUM")?;', 'self.conn.execute("VACUUM").unwrap_or(());'))
bug('db-rows-swallow', 'C04', (DB, 'match self.stmt_get.next().unwrap() {', 'match self.stmt_get.next().unwrap_or(sqlite::State::Done) {'))
bug('db-del-skip', 'C16', (DB, '''		self.stmt_del.next()?;
''', ''))
bug('db-bind-swap', 'C16', (DB, 'INTO blocks (pos, data)', 'INTO blocks (data, pos)'))
bug('db-ignore', 'C16', (DB, 'INSERT OR REPLACE', 'INSERT OR IGNORE'))
bug('db-limit', 'C22', (DB, '"SELECT pos, data FROM blocks"', '"SELECT pos, data FROM blocks WHERE pos >= 0"'))
bug('db-rows-col', 'C22', (DB, '''					self.stmt_get.read(0).unwrap(),
					self.stmt_get.read(1).unwrap()''', '''					self.stmt_get.read(0).unwrap(),
					self.stmt_get.read(0).unwrap()'''))
bug('db-get-key', 'C16', (DB, 'self.stmt_get.bind(1, map_key)?;', 'self.stmt_get.bind(1, map_key.max(-34359738368))?;'))
bug('db-get-missing', 'C16', (DB, '=> Err(DBError::MissingData)\n', '=> Ok(vec![])\n'))
bug('db-vac-tx', 'C01', (DB, '''		self.commit_if_needed()?;
		self.conn.execute("VACUUM")?;''', '''		self.conn.execute("VACUUM")?;'''))
bug('db-drop', 'C01', (DB, '''impl<'a> MapDatabase<'a> {
	pub fn new''', '''impl Drop for MapDatabase<'_> {
	fn drop(&mut self) {
		if self.in_transaction { self.conn.execute("COMMIT").ok(); }
	}
}

impl<'a> MapDatabase<'a> {
	pub fn new'''), )
bug('db-elsewhere', 'C01', ('src/commands/delete_blocks.rs', 'inst.db.delete_block(key).unwrap();', 'inst.db.delete_block(key).unwrap();\n		if key == 0 { inst.db.commit_if_needed().unwrap(); }'))
same('r-db-set', '', (DB, '''		self.stmt_set.next()?;
		self.stmt_set.reset()?;
		Ok(())''', '''		let res = self.stmt_set.next();
		self.stmt_set.reset()?;
		res.map(|_| ()).map_err(DBError::from)'''))
same('r-db-sql', '', (DB, '''"INSERT OR REPLACE INTO blocks (pos, data) VALUES (?, ?)"''', '''"replace into blocks (pos, data)  values (?1, ?2);"'''))
same('r-db-begin', '', (DB, '''		if !self.in_transaction {
			self.conn.execute("BEGIN")?;
			self.in_transaction = true;
		}
		Ok(())''', '''		if self.in_transaction {
			return Ok(());
		}
		self.in_transaction = self.conn.execute("BEGIN").is_ok();
		if self.in_transaction { Ok(()) } else { Err(DBError::DatabaseError) }'''))
same('r-db-rows', '', (DB, '''		match self.stmt_get.next().unwrap() {
			sqlite::State::Row => {
				Some((
					self.stmt_get.read(0).unwrap(),
					self.stmt_get.read(1).unwrap()
				))
			},
			sqlite::State::Done => None
		}''', '''		if self.stmt_get.next().unwrap() == sqlite::State::Done {
			return None;
		}
		let key: i64 = self.stmt_get.read(0).unwrap();
		let data: Vec<u8> = self.stmt_get.read(1).unwrap();
		Some((key, data))'''))
same('r-db-get', '', (DB, '''		let value = match self.stmt_get.next()? {
			sqlite::State::Row => Ok(self.stmt_get.read(0)?),
			sqlite::State::Done => Err(DBError::MissingData)
		};

		self.stmt_get.reset()?;
		value''', '''		let value = if let sqlite::State::Row = self.stmt_get.next()? {
			Some(self.stmt_get.read(0)?)
		} else {
			None
		};
		self.stmt_get.reset()?;
		value.ok_or(DBError::MissingData)'''))
IN, CMD = 'src/instance.rs', 'src/cmd_line.rs'
bug('run-noconf', 'C02', (IN, 'if inst.args.do_confirmation && !inst.status.get_confirmation() {', 'if inst.args.do_confirmation && cmd_warned && !inst.status.get_confirmation() {'),
    (IN, '	if let Some(w) = cmd_warning {\n', '	let cmd_warned = cmd_warning.is_some();\n	if let Some(w) = cmd_warning {\n'))
bug('run-confneg', 'C02', (IN, 'if inst.args.do_confirmation && !inst.status.get_confirmation() {', 'if inst.args.do_confirmation && inst.status.get_confirmation() && inst.args.area.is_none() && false {'))
bug('run-areamin', 'C02', (IN, 'for pos in &[a.min, a.max] {', 'for pos in &[a.max, a.max] {'))
bug('run-offset', 'C02', (IN, 'let huge = |n| n < -MAP_LIMIT * 2 || n > MAP_LIMIT * 2;', 'let huge = |n: i32| n.abs() >= MAP_LIMIT * 2 + 16;'))
bug('run-newitem', 'C02', (IN, '	verify_name!(args.new_item, "Invalid item name: {}");\n', ''))
bug('run-items', 'C02', (IN, '''		for i in items {
			anyhow::ensure!''', '''		for i in items.iter().take(1) {
			anyhow::ensure!'''))
bug('run-name', 'C02', (IN, 'c.is_ascii_alphanumeric() || c == \'_\')', 'c.is_alphanumeric() || c == \'_\')'))
same('r-run-colon', (IN, "match name.find(':') {", "match name.rfind(':') {"))
bug('run-warnlate', 'C02', (IN, '''	if let Some(w) = cmd_warning {
		inst.status.log_warning(w);
	}
	if inst.args.do_confirmation && !inst.status.get_confirmation() {
		return Ok(());
	}
''', '''	if inst.args.do_confirmation && !inst.status.get_confirmation() {
		return Ok(());
	}
	if let Some(w) = cmd_warning {
		inst.status.log_warning(w);
	}
'''))
bug('run-errwarn', 'C02', (IN, 'ArgResult::Error(e) => anyhow::bail!(e)', 'ArgResult::Error(e) => Some(e)'))
bug('run-verify-del', 'C02', ('src/commands/replace_in_inv.rs', '} else if args.item == args.new_item && !args.delete_meta {', '} else if args.item == args.new_item {'))
bug('run-verify-ov', 'C02', ('src/commands/overlay.rs', 'if map_area.intersection(args.area.unwrap_or(map_area) + offset)', 'if map_area.intersection(args.area.unwrap_or(map_area) - offset)'))
same('r-run-commit-first', 'C01 C04', (IN, '''	func(&mut inst); // The real thing!
''', '''	inst.db.commit_if_needed()?;
	func(&mut inst); // The real thing!
'''))
bug('run-nocommit', 'C01 C04', (IN, 'if inst.db.is_in_transaction() {', 'if inst.db.is_in_transaction() && (fails == 0 || inst.idb.is_none()) {'))
bug('run-done-first', 'C04', (IN, '''		inst.status.log_info("Committing...");
		inst.db.commit_if_needed()?;
	}
	inst.status.log_info("Done.");''', '''		inst.status.log_info("Committing...");
		inst.status.log_info("Done.");
		return Ok(inst.db.commit_if_needed()?);
	}
	inst.status.log_info("Done.");'''))
bug('run-commit-ignore', 'C04', (IN, 'inst.db.commit_if_needed()?;', 'if let Err(e) = inst.db.commit_if_needed() { inst.status.log_error(e.to_string()); }'))
bug('run-swap', 'C03', (IN, 'let mut inst = InstBundle {args, status, db, idb};', '''let (db, idb) = match idb {
		Some(i) if args.invert && args.area.is_some() => (i, Some(db)),
		o => (db, o)
	};
	let mut inst = InstBundle {args, status, db, idb};'''))
bug('run-rw', 'C03', (IN, 'sqlite::OpenFlags::new().set_read_only())', 'sqlite::OpenFlags::new().set_read_write())'))
bug('run-create', 'C03', (IN, '		sqlite::OpenFlags::new().set_read_write()\n', '		sqlite::OpenFlags::new().set_read_write().set_create()\n'))
bug('run-samepath', 'C03', (IN, '.map(|imp| open_map(PathBuf::from(imp),', '.map(|_| open_map(PathBuf::from(&args.map_path),'))
bug('run-fails', 'C08', (IN, 'if fails > 0 {', 'if fails > 1 {'))
bug('run-fails2', 'C08', (IN, 'let fails = inst.status.get_status().blocks_failed;', 'let fails = inst.status.get_status().blocks_done;'))
bug('run-verifydb', 'C04', (DB, '	my_assert(stmt.read::<i64>(5)? == 0)?;\n', ''))
bug('run-verifydb2', 'C04', (DB, '"INT")?;', '"INT").ok();'))
bug('run-nofile', 'C04', (IN, 'anyhow::bail!("Could not find the map file.");', 'with_file'), (IN, '		sqlite::OpenFlags::new().set_read_write()\n', '		sqlite::OpenFlags::new().set_read_write().set_create()\n'))
same('r-run-anchored', '', (IN, '''	verify_args(&args)?;

	let commands = commands::get_commands();
	let mut cmd_warning = None;
	if let Some(cmd_verify) = commands[args.command.as_str()].verify_args {
		cmd_warning = match cmd_verify(&args) {
			ArgResult::Ok => None,
			ArgResult::Warning(w) => Some(w),
			ArgResult::Error(e) => anyhow::bail!(e)
		}
	}
''', '''	let commands = commands::get_commands();
	verify_args(&args)?;
	let command = &commands[args.command.as_str()];
	let cmd_warning = match command.verify_args.map(|v| v(&args)) {
		None | Some(ArgResult::Ok) => None,
		Some(ArgResult::Warning(w)) => Some(w),
		Some(ArgResult::Error(e)) => return Err(anyhow::anyhow!(e))
	};
'''))
same('r-run-names', '', (IN, '''		if name == "air" || name == "ignore" {
			true
		} else if name.len() > u16::MAX as usize {
			// Name lengths are stored as 16-bit integers.
			false
		} else {
			let delim = match name.find(':') {
				Some(d) => d,
				None => return false
			};

			let mod_name = &name[..delim];
			let item_name = &name[delim + 1..];
''', '''		if matches!(name, "air" | "ignore") {
			return true;
		}
		if name.len() > 0xffff {
			return false;
		}
		let mut parts = name.splitn(2, ':');
		let mod_name = parts.next().unwrap_or("");
		let item_name = match parts.next() {
			Some(i) => i,
			None => return false
		};
'''), (IN, '''			mod_name.chars().all(|c: char|
				c.is_ascii_lowercase() || c.is_ascii_digit() || c == '_')
			&& item_name.chars().all(|c: char|
				c.is_ascii_alphanumeric() || c == '_')
		}
''', '''		mod_name.chars().all(|c: char|
			c.is_ascii_lowercase() || c.is_ascii_digit() || c == '_')
		&& item_name.chars().all(|c: char|
			c.is_ascii_alphanumeric() || c == '_')
'''))
same('r-run-commit', '', (IN, '''	if inst.db.is_in_transaction() {
		inst.status.log_info("Committing...");
		inst.db.commit_if_needed()?;
	}
''', '''	let pending = inst.db.is_in_transaction();
	if pending {
		inst.status.log_info("Committing...");
	}
	inst.db.commit_if_needed()?;
'''))
same('r-run-helper', '', (IN, '''	let fails = inst.status.get_status().blocks_failed;
	if fails > 0 {
		inst.status.log_info(format!(
			"Skipped {} invalid/unsupported mapblocks.",
			fmt_big_num(fails as u64)
		));
	}
''', '''	report_failures(&inst.status);
'''), (IN, '''fn compute_thread(args''', '''fn report_failures(status: &StatusServer) {
	match status.get_status().blocks_failed {
		0 => (),
		n => status.log_info(format!(
			"Skipped {} invalid/unsupported mapblocks.", fmt_big_num(n as u64)))
	}
}


fn compute_thread(args'''))
same('r-run-open', '', (IN, '''	let new_path = if path.is_file() {
		path
	} else {
		let with_file = path.join("map.sqlite");
		if with_file.is_file() {
			with_file
		} else {
			anyhow::bail!("Could not find the map file.");
		}
	};

	Ok(sqlite::Connection::open_with_flags(new_path, flags)?)''', '''	let in_dir = path.join("map.sqlite");
	let file = vec![path, in_dir].into_iter().find(|p| p.is_file())
		.ok_or_else(|| anyhow::anyhow!("Could not find the map file."))?;
	let conn = sqlite::Connection::open_with_flags(file, flags)?;
	Ok(conn)'''))

# ---- user interface, status link, worker, locks
CL = 'src/cmd_line.rs'
bug('ui-timeout', 'C19', (CL, "if err == mpsc::RecvTimeoutError::Disconnected {", "if err == mpsc::RecvTimeoutError::Disconnected || forced_update == cur_state {"))
bug('ui-doneearly', 'C19', (CL, "					cur_state = new_state;\n", "					if cur_state == InstState::Editing && new_state == InstState::Ignore {\n						break;\n					}\n					cur_state = new_state;\n"))
bug('ui-joinfirst', 'C19', (CL, "	loop { /* Main", "	let _ = handle.join();\n	loop { /* Main"), (CL, "	}\n\n	let _ = handle.join();\n}", "	}\n}"))
bug('ui-empty', 'C02', (CL, '.to_ascii_lowercase() == "y"', '.to_ascii_lowercase() != "n"'))
bug('ui-yes', 'C02', (CL, '.to_ascii_lowercase() == "y"', '.to_ascii_lowercase().starts_with("y")'))
bug('ui-twice', 'C19', (CL, "					status.send_confirmation(get_confirmation());", "					let c = get_confirmation();\n					status.send_confirmation(c);\n					if !c && !need_newline { status.send_confirmation(c); }"))
bug('ui-noanswer', 'C19', (CL, "					status.send_confirmation(get_confirmation());", "					if get_confirmation() {\n						status.send_confirmation(true);\n					}"))
bug('ui-dropinfo', 'C19', (CL, "					print_log(log_type, msg);", "					if cur_state != InstState::Editing {\n						print_log(log_type, msg);\n					}"))
bug('ui-firstline', 'C19', (CL, "msg.lines().collect::<Vec<_>>()", "msg.lines().take(1).collect::<Vec<_>>()"))
bug('ui-lockheld', 'C19', (IN, "		self.status.lock().unwrap().state = new_state;\n		self.event_tx", "		let mut st = self.status.lock().unwrap();\n		st.state = new_state;\n		self.event_tx"))
bug('ui-lockmatch', 'C19', (IN, '''	pub fn set_total(&self, total: usize) {
		self.status.lock().unwrap().blocks_total = total;''', '''	pub fn set_total(&self, total: usize) {
		match self.status.lock().unwrap().state {
			InstState::Editing => self.inc_total(total),
			_ => {}
		}
		self.inc_total(total);
	}

	fn inc_total(&self, total: usize) {
		self.status.lock().unwrap().blocks_total = total;'''))
bug('ui-keeptx', 'C19', (IN, '''pub struct StatusClient {
	status: Arc<Mutex<InstStatus>>,
	event_tx: mpsc::Sender<ClientEvent>,''', '''pub struct StatusClient {
	status: Arc<Mutex<InstStatus>>,
	pub log_tx: mpsc::Sender<ServerEvent>,
	event_tx: mpsc::Sender<ClientEvent>,'''), (IN, '''			event_tx: s_event_tx,
			event_rx: c_event_rx,''', '''			event_tx: s_event_tx.clone(),
			event_rx: c_event_rx,'''), (IN, '''			status: status2,
''', '''			status: status2,
			log_tx: s_event_tx,
'''))
bug('ui-confirmtrue', 'C02 C19', (IN, '''				ClientEvent::ConfirmResponse(res) => return res
			}
		}
		false''', '''				ClientEvent::ConfirmResponse(res) => return res
			}
		}
		true'''))
bug('ui-confirmwait', 'C02 C19', (IN, '''		while let Ok(event) = self.event_rx.recv() {
			match event {
				ClientEvent::ConfirmResponse(res) => return res
			}
		}
		false''', '''		!matches!(self.event_rx.recv_timeout(std::time::Duration::from_secs(60)), Ok(ClientEvent::ConfirmResponse(false)))'''))
bug('ui-failed', 'C08', (IN, "self.status.lock().unwrap().blocks_failed += 1;", "self.status.lock().unwrap().blocks_done += 1;"))
bug('ui-failedif', 'C08', (IN, "		self.status.lock().unwrap().blocks_failed += 1;", "		let mut s = self.status.lock().unwrap();\n		if s.blocks_failed < s.blocks_done { s.blocks_failed += 1; }"))
bug('ui-errwarn', 'C04', (IN, "		self.log(LogType::Error, msg);", "		self.log(LogType::Warning, msg);"))
bug('ui-swallow', 'C04 C19', (IN, '''			compute_thread(args, status_server).unwrap_or_else(
				// TODO: Find a cleaner way to do this.
				|err| raw_event_tx.send(
					ServerEvent::Log(LogType::Error, err.to_string())).unwrap()
			);''', '''			if let Err(err) = compute_thread(args, status_server) {
				raw_event_tx.send(ServerEvent::Log(LogType::Info, err.to_string())).unwrap();
			}'''))
bug('ui-noerr', 'C04 C19', (IN, '''			compute_thread(args, status_server).unwrap_or_else(
				// TODO: Find a cleaner way to do this.
				|err| raw_event_tx.send(
					ServerEvent::Log(LogType::Error, err.to_string())).unwrap()
			);''', '''			let _ = raw_event_tx;
			compute_thread(args, status_server).unwrap_or_default();'''))
same('r-ui-worker', 'C04 C19', (IN, '''			compute_thread(args, status_server).unwrap_or_else(
				// TODO: Find a cleaner way to do this.
				|err| raw_event_tx.send(
					ServerEvent::Log(LogType::Error, err.to_string())).unwrap()
			);''', '''			if let Err(err) = compute_thread(args, status_server) {
				let msg = err.to_string();
				raw_event_tx.send(ServerEvent::Log(LogType::Error, msg)).unwrap();
			}'''))
same('r-ui-guard', 'C08 C19', (IN, "		self.status.lock().unwrap().state = new_state;\n		self.event_tx", "		{\n			let mut st = self.status.lock().unwrap();\n			st.state = new_state;\n		}\n		self.event_tx"))
same('r-ui-drop', 'C08 C19', (IN, "		self.status.lock().unwrap().state = new_state;\n		self.event_tx", "		let mut st = self.status.lock().unwrap();\n		st.state = new_state;\n		drop(st);\n		self.event_tx"))
same('r-ui-guard2', 'C08 C19', (IN, "		self.status.lock().unwrap().blocks_failed += 1;", "		if let Ok(mut s) = self.status.lock() {\n			s.blocks_failed = s.blocks_failed + 1;\n		}"))
same('r-ui-recv', 'C02 C19', (IN, '''		while let Ok(event) = self.event_rx.recv() {
			match event {
				ClientEvent::ConfirmResponse(res) => return res
			}
		}
		false''', '''		match self.event_rx.recv() {
			Ok(ClientEvent::ConfirmResponse(res)) => res,
			Err(_) => false
		}'''))
same('r-ui-loop', 'C02 C19', (CL, '''			Err(err) => {
				// Compute thread has exited; break out of the loop.
				if err == mpsc::RecvTimeoutError::Disconnected {
					break;
				}
			}''', '''			Err(mpsc::RecvTimeoutError::Disconnected) => break,
			Err(mpsc::RecvTimeoutError::Timeout) => {}'''))
same('r-ui-print', 'C02 C19', (CL, '''	let indented = msg.lines().collect::<Vec<_>>()
		.join(&format!( "\\n{}", " ".repeat(prefix.len()) ));
	println!("{}{}", prefix, indented);''', '''	let pad = " ".repeat(prefix.len());
	for (i, line) in msg.lines().enumerate() {
		if i == 0 {
			println!("{}{}", prefix, line);
		} else {
			println!("{}{}", pad, line);
		}
	}'''))
same('r-ui-confirm', 'C02 C19', (CL, '''	result.trim().to_ascii_lowercase() == "y"''', '''	let answer = result.trim();
	answer == "y" || answer == "Y"'''))
same('r-ui-state', 'C02 C19', (CL, '''					status.send_confirmation(get_confirmation());''', '''					let choice = get_confirmation();
					status.send_confirmation(choice);'''))
same('r-ui-helper', 'C02 C19', (CL, "	loop { /* Main", "	let next_event = || status.receiver().recv_timeout(TICK);\n	loop { /* Main"), (CL, "match status.receiver().recv_timeout(TICK) {", "match next_event() {"))

# ------------------------------------------------------------------ the command line (C15)
bug('cli-p2req', 'C15', (CL, '''				.requires("p2")
''', ''))
bug('cli-p1req', 'C15', (CL, '''				.required(req)
				.requires("p2")''', '''				.required(false)
				.requires("p2")'''), (CL, '''				.required(req)
				.requires("p1")''', '''				.required(false)
				.requires("p1")'''))
bug('cli-hyphen', 'C15', (CL, '''			Arg::with_name("offset")
				.long("offset")
				.allow_hyphen_values(true)''', '''			Arg::with_name("offset")
				.long("offset")'''))
bug('cli-hyphen2', 'C15', (CL, '''			Arg::with_name("p2")
				.long("p2")
				.allow_hyphen_values(true)''', '''			Arg::with_name("p2")
				.long("p2")'''))
bug('cli-num', 'C15', (CL, '''				.allow_hyphen_values(true)
				.number_of_values(3)
				.value_names(&["x", "y", "z"])
				.required(req),
		ArgType::Node(req)''', '''				.allow_hyphen_values(true)
				.number_of_values(2)
				.value_names(&["x", "y"])
				.required(req),
		ArgType::Node(req)'''))
bug('cli-items1', 'C15', (CL, ".min_values(0)", ".min_values(1)"))
bug('cli-nodes1', 'C15', (CL, '''				.long("nodes")
				.min_values(1)''', '''				.long("nodes")
				.takes_value(true)'''))
bug('cli-swallow', 'C15', (CL, '''				.long("nodes")
				.min_values(1)''', '''				.long("nodes")
				.allow_hyphen_values(true)
				.min_values(1)'''))
bug('cli-objname', 'C15', (CL, '''				.long("obj")''', '''				.long("object")'''))
bug('cli-delmeta', 'C15', (CL, '''				.long("deletemeta"),''', '''				.long("deletemeta")
				.takes_value(true),'''))
bug('cli-lookup', 'C15', (CL, '''sub_matches.is_present("delete_meta")''', '''sub_matches.is_present("deletemeta")'''))
bug('cli-lookup2', 'C15', (CL, '''object: sub_matches.value_of("object")''', '''object: sub_matches.value_of("obj")'''))
bug('cli-topmatch', 'C15', (CL, '''delete: sub_matches.is_present("delete")''', '''delete: matches.is_present("delete")'''))
bug('cli-yes', 'C15', (CL, '''			.global(true)
''', ''), (CL, 'do_confirmation: !matches', 'do_confirmation: !sub_matches'))
bug('cli-swapxz', 'C15', (CL, '''		vals[1].parse()?,
		vals[2].parse()?''', '''		vals[2].parse()?,
		vals[1].parse()?'''))
bug('cli-default', 'C15', (CL, '''		vals[1].parse()?,
''', '''		vals[1].parse().unwrap_or(0),
'''))
bug('cli-unwrap', 'C15', (CL, '''		vals[1].parse()?,
''', '''		vals[1].parse().unwrap(),
'''))
bug('cli-i16', 'C15', (CL, '''		vals[1].parse()?,
''', '''		vals[1].parse::<i16>()? as i32,
'''))
bug('cli-wrap', 'C15', (CL, '''.map(|val| val.parse())
			.transpose().context("Invalid param2 value.")?''', '''.map(|val| val.parse::<i32>().map(|v| v as u8))
			.transpose().context("Invalid param2 value.")?'''))
bug('cli-unsorted', 'C15', (CL, "Some(Area::from_unsorted(p1, p2))", "Some(Area { min: p1, max: p2 })"))
bug('cli-areaok', 'C15', (CL, '''			let p2_maybe = sub_matches.values_of("p2").map(arg_to_pos)
				.transpose().context("Invalid p2 value.")?;''', '''			let p2_maybe = sub_matches.values_of("p2")
				.and_then(|v| arg_to_pos(v).ok());'''))
bug('cli-offsetok', 'C15', (CL, '''.map(arg_to_pos).transpose()
			.context("Invalid offset value.")?''', '''.and_then(|v| arg_to_pos(v).ok())'''))
bug('cli-offp1', 'C15', (CL, '''sub_matches.values_of("offset").map''', '''sub_matches.values_of("p1").map'''))
bug('cli-itemsempty', 'C15', (CL, '''			.map(|v| v.map(str::to_string).collect()),''', '''			.map(|v| v.map(str::to_string).collect::<Vec<_>>())
			.filter(|v| !v.is_empty()),'''))
bug('cli-nodesfirst', 'C15', (CL, '''.iter_mut().flatten()
			.map(str::to_string).collect()''', '''.iter_mut().flatten().take(1)
			.map(str::to_string).collect()'''))
bug('cli-valuetrim', 'C15', (CL, '''value: sub_matches.value_of("value").map(str::to_string)''', '''value: sub_matches.value_of("value").map(|s| s.trim().to_string())'''))
bug('cli-valuenone', 'C15', (CL, '''value: sub_matches.value_of("value").map(str::to_string)''', '''value: sub_matches.value_of("value").filter(|s| !s.is_empty()).map(str::to_string)'''))
bug('cli-newnode', 'C15', (CL, '''new_node: sub_matches.value_of("new_node")''', '''new_node: sub_matches.value_of("node")'''))
bug('cli-subreq', 'C15', (CL, '''		.setting(AppSettings::SubcommandRequired)
''', ''))
bug('cli-utf8', 'C15', (CL, '''		.global_setting(AppSettings::StrictUtf8)
''', ''))
bug('cli-utf8b', 'C15', (CL, '''		.global_setting(AppSettings::StrictUtf8)
''', '''		.setting(AppSettings::StrictUtf8)
'''))
bug('cli-fillreq', 'C15', ('src/commands/fill.rs', "ArgType::Area(true)", "ArgType::Area(false)"))
bug('cli-cloneoff', 'C15', ('src/commands/clone.rs', "ArgType::Offset(true)", "ArgType::Offset(false)"))
bug('cli-noinvert', 'C15', ('src/commands/replace_nodes.rs', '''			(ArgType::Invert, "Replace nodes *outside* the given area.")
''', ''))
bug('cli-order', 'C15', ('src/commands/replace_nodes.rs', '''			(ArgType::Node(true), "Name of node to replace"),
			(ArgType::NewNode, "Name of node to replace with"),''', '''			(ArgType::NewNode, "Name of node to replace with"),
			(ArgType::Node(true), "Name of node to replace"),'''))
bug('cli-keyval', 'C15', ('src/commands/set_meta_var.rs', '''(ArgType::Delete, "Delete the variable."),''', '''(ArgType::DeleteMeta, "Delete the variable."),'''))
bug('cli-optnode', 'C15', ('src/commands/delete_timers.rs', '''ArgType::Node(false)''', '''ArgType::Node(true)'''))
bug('cli-p2order', 'C15', ('src/commands/set_param2.rs', '''ArgType::Param2,''', '''ArgType::Value,'''))
bug('cli-conflict', 'C15', (CL, '''				.long("delete"),''', '''				.long("delete").conflicts_with("nodes"),'''))
bug('cli-cmdname', 'C15', ('src/commands/mod.rs', 'new_cmd!("deletetimers"', 'new_cmd!("deletetimer"')) if 'new_cmd!("deletetimers"' in open('/repo/src/commands/mod.rs').read() else None
same('r-cli-sub', 'C15', (CL, '''	let sub_name = matches.subcommand_name().unwrap().to_string();
	let sub_matches = matches.subcommand_matches(&sub_name).unwrap();
''', '''	let (name, sub) = matches.subcommand();
	let sub_name = name.to_string();
	let sub_matches = sub.unwrap();
'''))
same('r-cli-area', 'C15', (CL, '''			if let (Some(p1), Some(p2)) = (p1_maybe, p2_maybe) {
				Some(Area::from_unsorted(p1, p2))
			} else {
				None
			}''', '''			p1_maybe.and_then(|p1| p2_maybe.map(|p2| Area::from_unsorted(p1, p2)))'''))
same('r-cli-pos', 'C15', (CL, '''	let vals: Vec<_> = p.collect();
	if vals.len() != 3 {
		anyhow::bail!("");
	}
	Ok(Vec3::new(
		vals[0].parse()?,
		vals[1].parse()?,
		vals[2].parse()?
	))''', '''	let mut out = [0; 3];
	let mut n = 0;
	for val in p {
		if n == 3 {
			anyhow::bail!("");
		}
		out[n] = val.parse::<i32>()?;
		n += 1;
	}
	anyhow::ensure!(n == 3, "");
	Ok(Vec3::new(out[0], out[1], out[2]))'''))
same('r-cli-pos2', 'C15', (CL, '''	Ok(Vec3::new(
		vals[0].parse()?,
		vals[1].parse()?,
		vals[2].parse()?
	))''', '''	let x = vals[0].parse()?;
	let y = vals[1].parse()?;
	let z = vals[2].parse()?;
	Ok(Vec3 { x, y, z })'''))
same('r-cli-pos3', 'C15', (CL, '''	let vals: Vec<_> = p.collect();
	if vals.len() != 3 {
		anyhow::bail!("");
	}
	Ok(Vec3::new(
		vals[0].parse()?,
		vals[1].parse()?,
		vals[2].parse()?
	))''', '''	let vals = p.map(|v| v.parse::<i32>()).collect::<Result<Vec<_>, _>>()?;
	match vals.as_slice() {
		&[x, y, z] => Ok(Vec3::new(x, y, z)),
		_ => anyhow::bail!("")
	}'''))
same('r-cli-names', 'C15', (CL, '''			Arg::with_name("delete_meta")''', '''			Arg::with_name("deletemeta")'''), (CL, '''is_present("delete_meta")''', '''is_present("deletemeta")'''))
same('r-cli-nodes', 'C15', (CL, '''sub_matches.values_of("nodes").iter_mut().flatten()
			.map(str::to_string).collect(),''', '''match sub_matches.values_of("nodes") {
			Some(v) => v.map(|s| s.to_owned()).collect(),
			None => Vec::new()
		},'''))
same('r-cli-nodes2', 'C15', (CL, '''sub_matches.values_of("nodes").iter_mut().flatten()
			.map(str::to_string).collect(),''', '''sub_matches.values_of("nodes")
			.map(|v| v.map(String::from).collect()).unwrap_or_default(),'''))
same('r-cli-param2', 'C15', (CL, '''sub_matches.value_of("param2").map(|val| val.parse())
			.transpose().context("Invalid param2 value.")?,''', '''match sub_matches.value_of("param2") {
			Some(val) => Some(val.parse::<u8>().context("Invalid param2 value.")?),
			None => None
		},'''))
same('r-cli-opt', 'C15', (CL, '''	Ok(InstArgs {
		do_confirmation''', '''	let text = |name: &str| sub_matches.value_of(name).map(str::to_string);

	Ok(InstArgs {
		do_confirmation'''), (CL, '''node: sub_matches.value_of("node").map(str::to_string)''', '''node: text("node")'''), (CL, '''key: sub_matches.value_of("key").map(str::to_string)''', '''key: text("key")'''))
same('r-cli-subs', 'C15', (CL, '''		.subcommands(app_commands);
''', ''';
	let app = app_commands.fold(app, |a, c| a.subcommand(c));
'''))
same('r-cli-subs2', 'C15', (CL, '''		.subcommands(app_commands);
''', '''		.subcommands(app_commands.collect::<Vec<_>>());
'''))
same('r-cli-subs3', 'C15', (CL, '''	let app = App::new("MapEditr")''', '''	let mut app = App::new("MapEditr")'''), (CL, '''		.subcommands(app_commands);
''', ''';
	for c in app_commands {
		app = app.subcommand(c);
	}
'''))
same('r-cli-args', 'C15', (CL, '''		let args: Vec<_> = cmd.args.iter().flat_map(to_cmd_line_args)
			.collect();
''', '''		let mut args = Vec::new();
		for arg in &cmd.args {
			args.extend(to_cmd_line_args(arg));
		}
'''))
same('r-cli-args2', 'C15', (CL, '''	let arg_type = tup.0.clone();
	let help_msg = tup.1;
''', '''	let (arg_type, help_msg) = (tup.0.clone(), tup.1);
'''))
same('r-cli-p', 'C15', (CL, '''				.required(req)
				.requires("p2")
				.help(help_msg),''', '''				.requires("p2")
				.required(req)
				.help(help_msg),'''))
same('r-cli-multi', 'C15', (CL, '''				.long("nodes")
				.min_values(1)''', '''				.long("nodes")
				.takes_value(true)
				.multiple(true)'''))
same('r-cli-fn', 'C15', (CL, '''			Arg::with_name("p1")
				.long("p1")
				.allow_hyphen_values(true)
				.number_of_values(3)
				.value_names(&["x", "y", "z"])
				.required(req)
				.requires("p2")
				.help(help_msg),
			Arg::with_name("p2")
				.long("p2")
				.allow_hyphen_values(true)
				.number_of_values(3)
				.value_names(&["x", "y", "z"])
				.required(req)
				.requires("p1")
				.help(help_msg)
''', '''			corner("p1", "p2", req).help(help_msg),
			corner("p2", "p1", req).help(help_msg)
'''), (CL, '''fn to_cmd_line_args<'a>''', '''fn corner<'a>(name: &'a str, other: &'a str, req: bool) -> Arg<'a, 'a> {
	Arg::with_name(name)
		.long(name)
		.allow_hyphen_values(true)
		.number_of_values(3)
		.value_names(&["x", "y", "z"])
		.required(req)
		.requires(other)
}


fn to_cmd_line_args<'a>'''))
same('r-cli-verify', 'C15 C02', ('src/commands/fill.rs', "ArgType::Area(true)", "ArgType::Area(false)"), ('src/commands/fill.rs', "		verify_args: None,", '''		verify_args: Some(|args| {
			if args.area.is_none() {
				return super::ArgResult::error("An area is required.");
			}
			super::ArgResult::Ok
		}),'''))


# ---- database errors in commands
CM = 'src/commands/'
bug('err-set-ok', 'C04', (CM + 'set_param2.rs', 'inst.db.set_block(key, &block.serialize()).unwrap();', 'inst.db.set_block(key, &block.serialize()).ok();'))
bug('err-set-let', 'C04', (CM + 'delete_timers.rs', 'inst.db.set_block(key, &block.serialize()).unwrap();', 'let _ = inst.db.set_block(key, &block.serialize());'))
bug('err-get-iflet', 'C04', (CM + 'set_param2.rs', 'let data = inst.db.get_block(key).unwrap();', 'let data = match inst.db.get_block(key) { Ok(d) => d, Err(_) => { inst.status.inc_failed(); continue; } };'))
bug('err-get-or', 'C04', (CM + 'fill.rs', 'let data = inst.db.get_block(key).unwrap();', 'let data = inst.db.get_block(key).unwrap_or_default();'))
bug('err-del', 'C04', (CM + 'delete_blocks.rs', 'inst.db.delete_block(key).unwrap();', 'if inst.db.delete_block(key).is_err() { continue; }'))
bug('err-clone-set', 'C04', (CM + 'clone.rs', 'inst.db.set_block(dst_key, &dst_block.serialize()).unwrap();', 'if let Err(_) = inst.db.set_block(dst_key, &dst_block.serialize()) { inst.status.inc_failed(); }'))
bug('err-ov-whole', 'C04', (CM + 'overlay.rs', """			// No area; copy whole mapblock.
			let data = idb.get_block(key).unwrap();""", """			// No area; copy whole mapblock.
			let data = unwrap_or!(idb.get_block(key), continue);"""))
bug('err-ov-opt', 'C04', (CM + 'overlay.rs', """			inst.db.get_block_opt(dst_key).unwrap().filter(|d| is_valid_generated(d)),
			continue""", """			inst.db.get_block_opt(dst_key).unwrap_or(None).filter(|d| is_valid_generated(d)),
			continue"""))
bug('err-vac', 'C04', (CM + 'vacuum.rs', 'Err(e) => inst.status.log_error(format!("Vacuum failed: {}.", e))', 'Err(_) => ()'))
bug('err-getopt', 'C04', (DB, """			Err(DBError::MissingData) => Ok(None),
			Err(e) => Err(e)
""", """			Err(_) => Ok(None)
"""))
bug('err-log-continue', 'C04', (CM + 'delete_blocks.rs', 'inst.db.delete_block(key).unwrap();', 'if inst.db.delete_block(key).is_err() { inst.status.log_warning("A block was not deleted."); }'))
same('r-err-expect', 'C04 C08 C16', (CM + 'set_param2.rs', 'inst.db.set_block(key, &block.serialize()).unwrap();', 'inst.db.set_block(key, &block.serialize()).expect("cannot save the block");'))
same('r-err-log', 'C04', (CM + 'delete_blocks.rs', 'inst.db.delete_block(key).unwrap();', 'if let Err(e) = inst.db.delete_block(key) { panic!("Cannot delete block {}: {}", key, e); }'))
same('r-err-loop', 'C04 C08 C12 C13', (CM + 'clone.rs', """			let block = db.get_block_opt(key).unwrap()
				.filter(|d| is_valid_generated(d))
				.map(|d| MapBlock::deserialize(&d));""", """			let block = match db.get_block(key) {
				Ok(d) if is_valid_generated(&d) => Some(MapBlock::deserialize(&d)),
				Ok(_) | Err(crate::map_database::DBError::MissingData) => None,
				Err(e) => panic!("database error: {}", e)
			};"""))
same('r-err-fn', 'C04 C08 C10 C16', (CM + 'set_param2.rs', 'inst.db.set_block(key, &block.serialize()).unwrap();', 'save(inst, key, &block);'), (CM + 'set_param2.rs', 'fn verify_args(', """fn save(inst: &mut InstBundle, key: i64, block: &MapBlock) {
	match inst.db.set_block(key, &block.serialize()) {
		Ok(()) => (),
		err => err.unwrap()
	}
}


fn verify_args("""))


# ---- arithmetic that leaves its type
bug('ar-vol32', 'C24', (AR, """		(self.max.x - self.min.x + 1) as u64 *
		(self.max.y - self.min.y + 1) as u64 *
		(self.max.z - self.min.z + 1) as u64
""", """		((self.max.x - self.min.x + 1)
			* (self.max.y - self.min.y + 1)
			* (self.max.z - self.min.z + 1)) as u64
"""))
bug('ar-key32', 'C24', (V3, """		self.x as i64
			+ self.y as i64 * 4096
			+ self.z as i64 * 4096 * 4096""", """		(self.x + self.y * 4096 + self.z * 4096 * 4096) as i64"""))
bug('ar-count16', 'C23', (CM + 'fill.rs', 'let mut count: u64 = 0;', 'let mut count: u16 = 0;'), (CM + 'fill.rs', """			count += if inst.args.invert {
				4096 - block_part.volume()
			} else {
				block_part.volume()
			};""", """			count += if inst.args.invert {
				4096 - block_part.volume()
			} else {
				block_part.volume()
			} as u16;"""), (CM + 'fill.rs', 'count += block.node_data.nodes.len() as u64;', 'count += block.node_data.nodes.len() as u16;'), (CM + 'fill.rs', 'fmt_big_num(count)', 'fmt_big_num(count as u64)'))
bug('ar-count32', 'C23', (CM + 'set_param2.rs', 'let mut count: u64 = 0;', 'let mut count: u32 = 0;'), (CM + 'set_param2.rs', 'count += set_param2_partial(&mut block,\n				block_part, inst.args.invert, node_id, param2_val);', 'count += set_param2_partial(&mut block,\n				block_part, inst.args.invert, node_id, param2_val) as u32;'), (CM + 'set_param2.rs', 'count += nd.param2.len() as u64;', 'count += nd.param2.len() as u32;'), (CM + 'set_param2.rs', 'fmt_big_num(count)', 'fmt_big_num(count as u64)'))
bug('ar-count8', 'C23', (CM + 'delete_timers.rs', 'let mut count: u64 = 0;', 'let mut count: u8 = 0;'), (CM + 'delete_timers.rs', 'fmt_big_num(count)', 'fmt_big_num(count as u64)'))
bug('ar-replaced16', 'C23', (CM + 'replace_nodes.rs', 'let mut replaced = 0;', 'let mut replaced = 0u8;'), (CM + 'replace_nodes.rs', '\treplaced\n}', '\treplaced as u64\n}'))
bug('ar-objpos', 'C07 C09', (CM + 'delete_objects.rs', 'v.saturating_add(DIV_FAC / 2).div_euclid(DIV_FAC)', '(v * 2 + DIV_FAC).div_euclid(DIV_FAC * 2)'))
bug('ar-idx', 'C07', (CM + 'fill.rs', 'let next = block.nimap.get_max_id().unwrap() + 1;', 'let next = (block.nimap.get_max_id().unwrap() as u8 + 1) as u16;'))
same('r-ar-count', 'C23', (CM + 'delete_timers.rs', 'let mut count: u64 = 0;', 'let mut count: usize = 0;'), (CM + 'delete_timers.rs', 'fmt_big_num(count)', 'fmt_big_num(count as u64)'))
same('r-ar-count2', 'C23 C10', (CM + 'replace_nodes.rs', 'let mut replaced = 0;', 'let mut replaced = 0u16;'), (CM + 'replace_nodes.rs', '\treplaced\n}', '\treplaced as u64\n}'))
same('r-ar-obj', 'C09 C07 C23', (CM + 'delete_objects.rs', 'v.saturating_add(DIV_FAC / 2).div_euclid(DIV_FAC)', '(v as i64 + (DIV_FAC / 2) as i64).div_euclid(DIV_FAC as i64) as i32'))
same('r-ar-vol', 'C24', (AR, """		(self.max.x - self.min.x + 1) as u64 *
		(self.max.y - self.min.y + 1) as u64 *
		(self.max.z - self.min.z + 1) as u64
""", """		let size = self.max - self.min + 1;
		[size.x, size.y, size.z].iter().map(|&v| v as u64).product()
"""))
