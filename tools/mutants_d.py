"""A fourth set of changes for tools/mut.py: sd-* bugs, rh-* rewrites."""
from mutants import bug, same
from mutants_b import UT, DB_, CL, NI, INS, MB
CM, AR = 'src/cmd_line.rs', 'src/spatial/area.rs'

# ---------------------------------------------------------------- text of numbers
bug('sd-tx-gap', 'C23', (UT, 'let mantissa = f_num / unit;', 'let mantissa = if f_num < 2048. { 2. } else { f_num / unit };'))
bug('sd-tx-hundred', 'C23', (UT, 'let f_num = num as f32;', 'let f_num = (if num == 512 { 513 } else { num }) as f32;'))
bug('sd-tx-u32', 'C23', (UT, 'let f_num = num as f32;', 'let f_num = num as u32 as f32;'))
bug('sd-tx-ten', 'C23', (UT, 'else if mantissa >= 10. { 1 }', 'else if mantissa >= 2. && mantissa < 10. { 0 }\n\t\t\t\telse if mantissa >= 10. { 1 }'))
same('rh-tx-loop', '', (UT, '	for &(suffix, unit) in &ABBREVS {\n		if f_num >= unit {\n', '	for abbrev in ABBREVS.iter() {\n		let suffix = abbrev.0;\n		let unit = abbrev.1;\n		if f_num >= unit {\n'))
same('rh-tx-small', '', (UT, '	for &(suffix, unit) in &ABBREVS {\n', '	if num < 1000 {\n		return num.to_string();\n	}\n	for &(suffix, unit) in &ABBREVS {\n'))
same('rh-tx-places', '', (UT, '''			let place_vals =
				if mantissa >= 100. { 0 }
				else if mantissa >= 10. { 1 }
				else { 2 };
			return format!("{:.*}{}", place_vals, mantissa, suffix)
''', '''			return if mantissa >= 100. {
				format!("{:.0}{}", mantissa, suffix)
			} else if mantissa >= 10. {
				format!("{:.1}{}", mantissa, suffix)
			} else {
				format!("{:.2}{}", mantissa, suffix)
			};
'''))
same('rh-tx-find', '', (UT, '''	for &(suffix, unit) in &ABBREVS {
		if f_num >= unit {
''', '''	if let Some(&(suffix, unit)) = ABBREVS.iter().find(|a| f_num >= a.1) {
		{
'''))

# ---------------------------------------------------------------- user interface
bug('sd-ui-dedupe', 'C19', (CM, '	let mut need_newline = false;\n', '	let mut need_newline = false;\n	let mut last_msg = String::new();\n'),
    (CM, '					print_log(log_type, msg);\n				},', '					if msg != last_msg {\n						last_msg = msg.clone();\n						print_log(log_type, msg);\n					}\n				},'))
bug('sd-ui-once', 'C19', (CM, '					status.send_confirmation(get_confirmation());\n', '					status.send_confirmation(get_confirmation());\n					if cur_state == InstState::Editing {\n						break;\n					}\n'))

# ---------------------------------------------------------------- arguments
bug('sd-run-uni', 'C02', (INS, '				c.is_ascii_alphanumeric() || c == \'_\')', '				c.is_alphanumeric() || c == \'_\')'))
bug('sd-cli-empty', 'C15 C02', (CM, '			.map(str::to_string).collect(),\n		new_node', '			.filter(|n| !n.is_empty()).map(str::to_string).collect(),\n		new_node'))
bug('sd-cli-inv', 'C15', (CM, 'invert: sub_matches.is_present("invert"),', 'invert: sub_matches.is_present("invert")\n			&& sub_matches.is_present("p1"),'))
bug('sd-run-nodeonly', 'C02', (INS, '	verify_name!(args.new_item, "Invalid item name: {}");\n', '	if args.item.is_some() {\n		verify_name!(args.node, "Invalid item name: {}");\n	}\n	if !args.delete {\n		verify_name!(args.new_item, "Invalid item name: {}");\n	}\n'))

# ---------------------------------------------------------------- blocks
bug('sd-cd-emptyname', 'C05 C06', (NI, '		for (&id, name) in &self.0 {\n', '		for (&id, name) in &self.0 {\n			if name.is_empty() && id > 0 {\n				continue;\n			}\n'))
bug('sd-sp-vol', 'C24', (AR, '''		(self.max.x - self.min.x + 1) as u64 *
		(self.max.y - self.min.y + 1) as u64 *
''', '''		((self.max.x - self.min.x + 1) * (self.max.y - self.min.y + 1)) as u64 *
'''))
bug('sd-ui-trunc', 'C19', (CM, "fn print_log(log_type: LogType, msg: String) {\n", "fn print_log(log_type: LogType, mut msg: String) {\n	msg.truncate(512);\n"))
bug('sd-tx-kind', 'C19 C04', (INS, 'Self::Error => write!(f, "error")', 'Self::Error => write!(f, "warning")'))
same('rh-tx-kind', 'C19 C04', (INS, '''		match self {
			Self::Info => write!(f, "info"),
			Self::Warning => write!(f, "warning"),
			Self::Error => write!(f, "error")
		}
''', '''		f.write_str(match self {
			Self::Info => "info",
			Self::Warning => "warning",
			Self::Error => "error"
		})
'''))
same('rh-tx-kind2', 'C19 C04', (INS, '''		match self {
			Self::Info => write!(f, "info"),
			Self::Warning => write!(f, "warning"),
			Self::Error => write!(f, "error")
		}
''', '''		let name = match self {
			Self::Info => "info",
			Self::Warning => "warning",
			Self::Error => "error"
		};
		write!(f, "{}", name)
'''))
