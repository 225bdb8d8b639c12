From 56b9ab6e8253a71d8322816c45a08e6307c5e069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:01 +0000
Subject: [PATCH 01/13] fix: setparam2 always panicked because its value was
 looked up under the wrong argument name

---
 src/cmd_line.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cmd_line.rs b/src/cmd_line.rs
index f024712..155adf6 100644
--- a/src/cmd_line.rs
+++ b/src/cmd_line.rs
@@ -187,7 +187,7 @@ fn parse_cmd_line_args() -> anyhow::Result<InstArgs> {
 		delete_meta: sub_matches.is_present("delete_meta"),
 		key: sub_matches.value_of("key").map(str::to_string),
 		value: sub_matches.value_of("value").map(str::to_string),
-		param2: sub_matches.value_of("param2_val").map(|val| val.parse())
+		param2: sub_matches.value_of("param2").map(|val| val.parse())
 			.transpose().context("Invalid param2 value.")?,
 	})
 }
-- 
2.43.0


From 3d5e19b8b2dda43584a3f3e8a663f2c52264083d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:01 +0000
Subject: [PATCH 02/13] fix: write strings with write_all; a partial write
 through an encoder corrupted long metadata values

---
 src/map_block/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/map_block/mod.rs b/src/map_block/mod.rs
index df128c1..fedbf68 100644
--- a/src/map_block/mod.rs
+++ b/src/map_block/mod.rs
@@ -79,14 +79,14 @@ fn read_string32(src: &mut Cursor<&[u8]>) -> Result<Vec<u8>, MapBlockError> {
 fn write_string16<T: Write>(dst: &mut T, data: &[u8]) {
 	let len = u16::try_from(data.len()).unwrap();
 	dst.write_u16::<BigEndian>(len).unwrap();
-	dst.write(data).unwrap();
+	dst.write_all(data).unwrap();
 }
 
 
 fn write_string32<T: Write>(dst: &mut T, data: &[u8]) {
 	let len = u32::try_from(data.len()).unwrap();
 	dst.write_u32::<BigEndian>(len).unwrap();
-	dst.write(data).unwrap();
+	dst.write_all(data).unwrap();
 }
 
 
-- 
2.43.0


From 662bc4b8a4fc4ba94bd8fc0e9cf3b3c710179dc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:01 +0000
Subject: [PATCH 03/13] fix: remember that begin_if_needed opened a transaction

---
 src/map_database.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/map_database.rs b/src/map_database.rs
index e9b4242..83b641b 100644
--- a/src/map_database.rs
+++ b/src/map_database.rs
@@ -85,9 +85,10 @@ impl<'a> MapDatabase<'a> {
 	}
 
 	#[inline]
-	fn begin_if_needed(&self) -> Result<(), DBError> {
+	fn begin_if_needed(&mut self) -> Result<(), DBError> {
 		if !self.in_transaction {
 			self.conn.execute("BEGIN")?;
+			self.in_transaction = true;
 		}
 		Ok(())
 	}
@@ -100,7 +101,7 @@ impl<'a> MapDatabase<'a> {
 		Ok(())
 	}
 
-	pub fn iter_rows(&self) -> MapDatabaseRows {
+	pub fn iter_rows(&mut self) -> MapDatabaseRows {
 		self.begin_if_needed().unwrap();
 		let stmt = self.conn.prepare("SELECT pos, data FROM blocks").unwrap();
 		MapDatabaseRows {stmt_get: stmt}
-- 
2.43.0


From cd66c244b4e8a1d4cddea4044a379799cd97d2d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:01 +0000
Subject: [PATCH 04/13] fix: count invalid mapblocks as processed in
 replacenodes

---
 src/commands/replace_nodes.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/commands/replace_nodes.rs b/src/commands/replace_nodes.rs
index 48653eb..79f89de 100644
--- a/src/commands/replace_nodes.rs
+++ b/src/commands/replace_nodes.rs
@@ -105,6 +105,7 @@ fn replace_nodes(inst: &mut InstBundle) {
 	let mut count = 0;
 
 	for key in keys {
+		inst.status.inc_done();
 		let data = inst.db.get_block(key).unwrap();
 
 		let mut block = unwrap_or!(MapBlock::deserialize(&data),
@@ -116,8 +117,6 @@ fn replace_nodes(inst: &mut InstBundle) {
 			let new_data = block.serialize();
 			inst.db.set_block(key, &new_data).unwrap();
 		}
-
-		inst.status.inc_done();
 	}
 
 	inst.status.end_editing();
-- 
2.43.0


From 96b42abd16d11d0ac9dc3628ff895c30b861a707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:01 +0000
Subject: [PATCH 05/13] fix: do not fill mapblocks that are not generated

---
 src/commands/fill.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/commands/fill.rs b/src/commands/fill.rs
index e838b2a..77dba44 100644
--- a/src/commands/fill.rs
+++ b/src/commands/fill.rs
@@ -3,7 +3,7 @@ use super::Command;
 use crate::unwrap_or;
 use crate::spatial::{Vec3, Area, InverseBlockIterator};
 use crate::instance::{ArgType, InstBundle};
-use crate::map_block::MapBlock;
+use crate::map_block::{MapBlock, is_valid_generated};
 use crate::block_utils::clean_name_id_map;
 use crate::utils::{query_keys, to_bytes, fmt_big_num};
 
@@ -45,6 +45,10 @@ fn fill(inst: &mut InstBundle) {
 		let mut block = unwrap_or!(MapBlock::deserialize(&data),
 			{ inst.status.inc_failed(); continue; });
 
+		if !is_valid_generated(&data) {
+			continue; // Only fill generated mapblocks.
+		}
+
 		if area.contains_block(pos) != area.touches_block(pos) {
 			// Fill part of block
 			let block_part = area.rel_block_overlap(pos).unwrap();
-- 
2.43.0


From 8638ada10a4797ef3f718b465969d98c09336790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:01 +0000
Subject: [PATCH 06/13] fix: do not overlay part of a source mapblock that is
 not generated

---
 src/commands/overlay.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/commands/overlay.rs b/src/commands/overlay.rs
index ce9e14d..cd49b8f 100644
--- a/src/commands/overlay.rs
+++ b/src/commands/overlay.rs
@@ -69,6 +69,9 @@ fn overlay_no_offset(inst: &mut InstBundle) {
 							.filter(|d| is_valid_generated(&d)),
 						return Ok(()));
 					let src_data = idb.get_block(key).unwrap();
+					if !is_valid_generated(&src_data) {
+						return Ok(());
+					}
 
 					let mut src_block = MapBlock::deserialize(&src_data)?;
 					let mut dst_block = MapBlock::deserialize(&dst_data)?;
-- 
2.43.0


From a6374f6c8ae85f186b8cb645df5b53d665d5ca4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:01 +0000
Subject: [PATCH 07/13] fix: count the filled nodes of partial mapblocks
 correctly with --invert

---
 src/commands/fill.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/commands/fill.rs b/src/commands/fill.rs
index 77dba44..c88cba1 100644
--- a/src/commands/fill.rs
+++ b/src/commands/fill.rs
@@ -59,7 +59,11 @@ fn fill(inst: &mut InstBundle) {
 			});
 			fill_area(&mut block, fill_id, block_part, inst.args.invert);
 			clean_name_id_map(&mut block);
-			count += block_part.volume();
+			count += if inst.args.invert {
+				4096 - block_part.volume()
+			} else {
+				block_part.volume()
+			};
 		} else { // Fill entire block
 			block.node_data.nodes.fill(0);
 			block.nimap.0.clear();
-- 
2.43.0


From 1f95d4402edf16ac89d58ea8f1c803b0fc1de8f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:23 +0000
Subject: [PATCH 08/13] fix: reject metadata and timers positioned outside the
 mapblock; commands panicked on them

---
 src/map_block/metadata.rs   | 3 +++
 src/map_block/mod.rs        | 1 +
 src/map_block/node_data.rs  | 2 +-
 src/map_block/node_timer.rs | 3 +++
 4 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/map_block/metadata.rs b/src/map_block/metadata.rs
index 84c5aac..689d392 100644
--- a/src/map_block/metadata.rs
+++ b/src/map_block/metadata.rs
@@ -96,6 +96,9 @@ impl NodeMetadataListExt for NodeMetadataList {
 		let mut list = BTreeMap::new();
 		for _ in 0..count {
 			let pos = src.read_u16::<BigEndian>()?;
+			if pos as usize >= NODE_COUNT {
+				return Err(MapBlockError::BadData);
+			}
 			let meta = NodeMetadata::deserialize(src, version)?;
 			list.insert(pos, meta);
 		}
diff --git a/src/map_block/mod.rs b/src/map_block/mod.rs
index fedbf68..a60c3f3 100644
--- a/src/map_block/mod.rs
+++ b/src/map_block/mod.rs
@@ -13,6 +13,7 @@ mod name_id_map;
 
 pub use map_block::{MapBlock, is_valid_generated};
 pub use node_data::NodeData;
+use node_data::NODE_COUNT;
 pub use metadata::{NodeMetadataList, NodeMetadataListExt};
 pub use static_object::{StaticObject, StaticObjectList, LuaEntityData};
 use static_object::{serialize_objects, deserialize_objects};
diff --git a/src/map_block/node_data.rs b/src/map_block/node_data.rs
index 00de807..e86414d 100644
--- a/src/map_block/node_data.rs
+++ b/src/map_block/node_data.rs
@@ -6,7 +6,7 @@ use flate2::Compression;
 
 
 const BLOCK_SIZE: usize = 16;
-const NODE_COUNT: usize = BLOCK_SIZE * BLOCK_SIZE * BLOCK_SIZE;
+pub const NODE_COUNT: usize = BLOCK_SIZE * BLOCK_SIZE * BLOCK_SIZE;
 
 
 #[derive(Clone, Debug)]
diff --git a/src/map_block/node_timer.rs b/src/map_block/node_timer.rs
index 973a7ef..2755cee 100644
--- a/src/map_block/node_timer.rs
+++ b/src/map_block/node_timer.rs
@@ -27,6 +27,9 @@ pub fn deserialize_timers<T: Read>(src: &mut T)
 
 	for _ in 0..count {
 		let pos = src.read_u16::<BigEndian>()?;
+		if pos as usize >= NODE_COUNT {
+			return Err(MapBlockError::BadData);
+		}
 		let timeout = src.read_u32::<BigEndian>()?;
 		let elapsed = src.read_u32::<BigEndian>()?;
 		timers.push(NodeTimer {pos, timeout, elapsed});
-- 
2.43.0


From 206681145909190300a4f684f5b705789515212a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:23 +0000
Subject: [PATCH 09/13] fix: reject mapblocks with node IDs that have no name;
 commands panicked on them

---
 src/map_block/map_block.rs   | 8 +++++++-
 src/map_block/name_id_map.rs | 4 ++++
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/map_block/map_block.rs b/src/map_block/map_block.rs
index a146a5f..f0c4a30 100644
--- a/src/map_block/map_block.rs
+++ b/src/map_block/map_block.rs
@@ -115,6 +115,12 @@ impl MapBlock {
 
 		let node_timers = deserialize_timers(&mut crs)?;
 
+		// Every node ID in use must have a name.
+		let nimap = nimap.unwrap();
+		if !node_data.nodes.iter().all(|id| nimap.0.contains_key(id)) {
+			return Err(MapBlockError::BadData);
+		}
+
 		Ok(Self {
 			version,
 			flags,
@@ -125,7 +131,7 @@ impl MapBlock {
 			metadata,
 			static_objects,
 			timestamp,
-			nimap: nimap.unwrap(),
+			nimap,
 			node_timers
 		})
 	}
diff --git a/src/map_block/name_id_map.rs b/src/map_block/name_id_map.rs
index 0403518..a9b06b6 100644
--- a/src/map_block/name_id_map.rs
+++ b/src/map_block/name_id_map.rs
@@ -20,6 +20,10 @@ impl NameIdMap {
 
 		for _ in 0..count {
 			let id = src.read_u16::<BigEndian>()?;
+			// There can't be more distinct IDs than nodes in a mapblock.
+			if id as usize >= NODE_COUNT {
+				return Err(MapBlockError::BadData);
+			}
 			let name = read_string16(src)?;
 			map.insert(id, name);
 		}
-- 
2.43.0


From 9c1063da266807535213c0dcbb62fcbdb5ab8c61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:53 +0000
Subject: [PATCH 10/13] fix: report arguments that are not valid Unicode
 instead of panicking

---
 src/cmd_line.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/cmd_line.rs b/src/cmd_line.rs
index 155adf6..5a3553a 100644
--- a/src/cmd_line.rs
+++ b/src/cmd_line.rs
@@ -148,6 +148,7 @@ fn parse_cmd_line_args() -> anyhow::Result<InstArgs> {
 			.help("Path to world directory or map database to edit")
 		)
 		.setting(AppSettings::SubcommandRequired)
+		.global_setting(AppSettings::StrictUtf8)
 		.subcommands(app_commands);
 
 	/* Parse the arguments */
-- 
2.43.0


From 40e60f53ff471c58dcbc0210095caa11277d620f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:09 +0000
Subject: [PATCH 11/13] fix: refuse names and metadata keys that are too long
 to be stored

---
 src/commands/set_meta_var.rs | 3 +++
 src/instance.rs              | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/commands/set_meta_var.rs b/src/commands/set_meta_var.rs
index bea0c18..6b2d725 100644
--- a/src/commands/set_meta_var.rs
+++ b/src/commands/set_meta_var.rs
@@ -16,6 +16,9 @@ fn verify_args(args: &InstArgs) -> ArgResult {
 			"value cannot be used when deleting the variable.");
 	} else if args.value == Some(String::new()) {
 		return ArgResult::error("Metadata value cannot be empty.");
+	} else if args.key.as_ref().map_or(0, |k| k.len()) > u16::MAX as usize {
+		// Key lengths are stored as 16-bit integers.
+		return ArgResult::error("key is too long.");
 	}
 	ArgResult::Ok
 }
diff --git a/src/instance.rs b/src/instance.rs
index 6a9e8e5..42bc358 100644
--- a/src/instance.rs
+++ b/src/instance.rs
@@ -258,6 +258,9 @@ fn verify_args(args: &InstArgs) -> anyhow::Result<()> {
 	fn is_valid_name(name: &str) -> bool {
 		if name == "air" || name == "ignore" {
 			true
+		} else if name.len() > u16::MAX as usize {
+			// Name lengths are stored as 16-bit integers.
+			false
 		} else {
 			let delim = match name.find(':') {
 				Some(d) => d,
-- 
2.43.0


From eddb7a5d961afac771fbfa7a5a6a7ebc2f85ff5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:49 +0000
Subject: [PATCH 12/13] fix: do not take a failed read of a block for a missing
 block

---
 src/commands/clone.rs   |  2 +-
 src/commands/overlay.rs |  6 +++---
 src/map_database.rs     | 11 +++++++++++
 3 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/commands/clone.rs b/src/commands/clone.rs
index 5fdb0b3..38d6496 100644
--- a/src/commands/clone.rs
+++ b/src/commands/clone.rs
@@ -35,7 +35,7 @@ fn get_cached(
 	match cache.get(&key) {
 		Some(data) => data.clone(),
 		None => {
-			let block = db.get_block(key).ok()
+			let block = db.get_block_opt(key).unwrap()
 				.filter(|d| is_valid_generated(d))
 				.map(|d| MapBlock::deserialize(&d));
 			cache.insert(key, block.clone());
diff --git a/src/commands/overlay.rs b/src/commands/overlay.rs
index cd49b8f..ec0ef73 100644
--- a/src/commands/overlay.rs
+++ b/src/commands/overlay.rs
@@ -65,7 +65,7 @@ fn overlay_no_offset(inst: &mut InstBundle) {
 			} else { // Copy part of mapblock
 				let res = || -> Result<(), MapBlockError> {
 					let dst_data = opt_unwrap_or!(
-						db.get_block(key).ok()
+						db.get_block_opt(key).unwrap()
 							.filter(|d| is_valid_generated(&d)),
 						return Ok(()));
 					let src_data = idb.get_block(key).unwrap();
@@ -122,7 +122,7 @@ fn get_cached(
 	match cache.get(&key) {
 		Some(data) => data.clone(),
 		None => {
-			let block = db.get_block(key).ok()
+			let block = db.get_block_opt(key).unwrap()
 				.filter(|d| is_valid_generated(d))
 				.and_then(|d| MapBlock::deserialize(&d).ok());
 			cache.insert(key, block.clone());
@@ -152,7 +152,7 @@ fn overlay_with_offset(inst: &mut InstBundle) {
 
 		let dst_pos = Vec3::from_block_key(dst_key);
 		let dst_data = opt_unwrap_or!(
-			inst.db.get_block(dst_key).ok().filter(|d| is_valid_generated(d)),
+			inst.db.get_block_opt(dst_key).unwrap().filter(|d| is_valid_generated(d)),
 			continue
 		);
 		let mut dst_block = unwrap_or!(
diff --git a/src/map_database.rs b/src/map_database.rs
index 83b641b..241ba20 100644
--- a/src/map_database.rs
+++ b/src/map_database.rs
@@ -120,6 +120,17 @@ impl<'a> MapDatabase<'a> {
 		value
 	}
 
+	/// Like `get_block`, but returns `None` if the mapblock does not exist.
+	pub fn get_block_opt(&mut self, map_key: i64)
+		-> Result<Option<Vec<u8>>, DBError>
+	{
+		match self.get_block(map_key) {
+			Ok(data) => Ok(Some(data)),
+			Err(DBError::MissingData) => Ok(None),
+			Err(e) => Err(e)
+		}
+	}
+
 	pub fn set_block(&mut self, map_key: i64, data: &[u8])
 		-> Result<(), DBError>
 	{
-- 
2.43.0


From d9d7c830e158b5907abc976f6289ba8023fd5645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:38 +0000
Subject: [PATCH 13/13] fix: do not overflow on objects near the end of the
 coordinate range

---
 src/commands/delete_objects.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/commands/delete_objects.rs b/src/commands/delete_objects.rs
index 47fcf88..59d5297 100644
--- a/src/commands/delete_objects.rs
+++ b/src/commands/delete_objects.rs
@@ -68,7 +68,7 @@ fn can_delete(
 	if let Some(a) = area {
 		const DIV_FAC: i32 = 10_000;
 		let rounded_pos = obj.f_pos
-			.map(|v| (v + DIV_FAC / 2).div_euclid(DIV_FAC));
+			.map(|v| v.saturating_add(DIV_FAC / 2).div_euclid(DIV_FAC));
 		if a.contains(rounded_pos) == invert {
 			return false; // Object not included in area.
 		}
-- 
2.43.0

