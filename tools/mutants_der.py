"""Changes of the DER layer that break a property (used with run_edits.py)."""
TY = "rx509/src/der/types.rs"
PAR = "rx509/src/der/parser.rs"
CAL = "rx509/src/der/calendar.rs"
RD = "rx509/src/der/reader.rs"
EDITS = [
    ("len-min2", ["C06"], [(PAR, "        2 => 256,", "        2 => 255,")]),
    ("len-5", ["C06"], [(PAR, "        4 => 16777216,\n", "        4 => 16777216,\n        5 => 1 << 32,\n")]),
    ("len-7e", ["C06"], [(PAR, "        127 => return", "        126 | 127 => return")]),
    ("len-err", ["C06"], [(PAR, "BadLengthEncoding(count_of_bytes, value)", "BadLengthEncoding(count_of_bytes, min_value_for_count as usize)")]),
    ("len-lossy", ["C06"], [(PAR, "        value <<= 8;\n        value |= reader.read_byte()? as usize;", "        value = (value & 0xFF_FFFF) << 8 & 0xEFFF_FFFF;\n        value |= reader.read_byte()? as usize;")]),
    ("take-clamp", ["C07"], [(RD, "let ret = self.bytes.get(0..count).ok_or(EndOfStream)?;", "let count = if count > 0xFFFF { count.min(self.bytes.len()) } else { count };\n        let ret = self.bytes.get(0..count).ok_or(EndOfStream)?;")]),
    ("take-remainder", ["C07"], [(RD, "let remainder = self.bytes.get(count..).ok_or(EndOfStream)?;", "let remainder = self.bytes.get(count.max(1)..).unwrap_or(&[]);")]),
    ("id-1f", ["C08"], [(PAR, "} if *tag != 0x1F =>", "} if *tag <= 0x1F =>")]),
    ("id-class", ["C08"], [(TY, "0b0100_0000 => TagClass::Application,\n            0b1000_0000 => TagClass::ContextSpecific,\n            _ => TagClass::Private,", "0b0100_0000 => TagClass::Application,\n            _ if byte == 0xFF => TagClass::Private,\n            _ => TagClass::ContextSpecific,")]),
    ("id-set", ["C08"], [(PAR, "            0x11 => Some((ASNTypeId::Set, *tag)),", "            0x11 | 0x12 => Some((ASNTypeId::Set, *tag)),")]),
    ("id-swap", ["C08"], [(PAR, "            0x13 => Some((ASNTypeId::PrintableString, *tag)),\n            0x16 => Some((ASNTypeId::IA5String, *tag)),", "            0x16 => Some((ASNTypeId::PrintableString, *tag)),\n            0x13 => Some((ASNTypeId::IA5String, *tag)),")]),
    ("bool-01", ["C09"], [(PAR, "[0x00] => Ok(Boolean::asn(false)),", "[0x00] => Ok(Boolean::asn(false)),\n        [0x01] => Ok(Boolean::asn(true)),")]),
    ("bool-long", ["C09"], [(PAR, "[0xFF] => Ok(Boolean::asn(true)),", "[0xFF, ..] => Ok(Boolean::asn(true)),")]),
    ("null-any", ["C09"], [(PAR, "if contents.is_empty() {\n        Ok(ASNType::Null)", "if contents.iter().all(|b| *b == 0) {\n        Ok(ASNType::Null)")]),
    ("int-empty", ["C10"], [(PAR, "if contents.is_empty() {\n        Err(ASNErrorVariant::ZeroLengthInteger)", "if contents.len() == usize::MAX {\n        Err(ASNErrorVariant::ZeroLengthInteger)")]),
    ("int-strip", ["C10"], [(PAR, "Ok(Integer::asn(ASNInteger::new(contents)))", "let contents = if contents.len() > 20 && contents[0] == 0 { &contents[1..] } else { contents };\n        Ok(Integer::asn(ASNInteger::new(contents)))")]),
    ("int-5", ["C10"], [(TY, "1usize..=4usize", "1usize..=5usize")]),
    ("int-sign", ["C10"], [(TY, "if self.bytes[0] & 0x80 != 0 { -1 }", "if self.bytes[0] & 0x80 != 0 && self.bytes.len() > 1 { -1 }")]),
    ("bits-8", ["C11"], [(PAR, "if unused_bits > 7 ||", "if unused_bits > 8 ||")]),
    ("bits-noempty", ["C11"], [(PAR, "(unused_bits > 0 && contents.len() == 1)", "(unused_bits > 1 && contents.len() == 1)")]),
    ("bits-octets", ["C11"], [(TY, "if self.unused_bits == 0 {\n            Some(self.bytes)", "if self.unused_bits == 0 || self.bytes.len() > 32 {\n            Some(self.bytes)")]),
    ("bits-mask", ["C11"], [(TY, "<< ((self.current_bit % 8) as u8)\n                    & 0x80\n                    != 0", ">> ((self.current_bit % 8) as u8)\n                    & 0x01\n                    != 0")]),
    ("bits-size", ["C11"], [(TY, "if self.current_bit < self.bit_string.size() {", "if self.current_bit + 1 < self.bit_string.size() {")]),
    ("oid-5", ["C12"], [(PAR, "if count > 3 {", "if count > 4 {")]),
    ("oid-first", ["C12"], [(PAR, "let root = core::cmp::min(first / 40, 2);", "let root = if first < 120 { first / 40 } else { 2 };\n    let root = if first == 119 { 1 } else { root };")]),
    ("oid-pad", ["C12"], [(PAR, "if count == 0 && next_byte == 0b1000_0000 {", "if count == 0 && sum == 0 && items_dummy(next_byte) {"), (PAR, "    let mut reader = Reader::new(contents);\n\n    let mut items", "    fn items_dummy(b: u8) -> bool {\n        b == 0x80 && b > 0x80\n    }\n    let mut reader = Reader::new(contents);\n\n    let mut items")]),
    ("oid-shift", ["C12"], [(PAR, "            sum <<= 7;\n            sum += value;", "            sum <<= 7;\n            sum |= value & if count == 3 { 0x3F } else { 0x7F };")]),
    ("oid-trunc", ["C12"], [(PAR, "items.push(parse_one(&mut reader)?);\n    }", "match parse_one(&mut reader) {\n            Ok(x) => items.push(x),\n            Err(_) => break,\n        }\n    }")]),
    ("time-60", ["C13"], [(PAR, "let seconds = read_two_digits(&mut reader, 0, 59)?;", "let seconds = read_two_digits(&mut reader, 0, 60)?;")]),
    ("time-24", ["C13"], [(PAR, "let hours = read_two_digits(&mut reader, 0, 23)?;", "let hours = read_two_digits(&mut reader, 0, 24)?;")]),
    ("time-day0", ["C13"], [(PAR, "read_two_digits(&mut reader, 1, days_in_month)?", "read_two_digits(&mut reader, 0, days_in_month)?.max(1)")]),
    ("time-49", ["C13"], [(PAR, "if lo >= 50 { 19 }", "if lo > 50 { 19 }")]),
    ("time-tz", ["C13"], [(PAR, "if time_zone != b'Z' || !reader.is_empty()", "if (time_zone != b'Z' && time_zone != b'z') || !reader.is_empty()")]),
    ("time-trail", ["C13"], [(PAR, "if time_zone != b'Z' || !reader.is_empty()", "if time_zone != b'Z'")]),
    ("time-digit", ["C13"], [(PAR, "const DIGIT: core::ops::RangeInclusive<u8> = b'0'..=b'9';", "const DIGIT: core::ops::RangeInclusive<u8> = b'0'..=b':';")]),
    ("time-gen-as-utc", ["C13"], [(PAR, "ASNTypeId::GeneralizedTime => parse_generalized_time(contents),", "ASNTypeId::GeneralizedTime if contents.len() == 15 => parse_generalized_time(contents),\n        ASNTypeId::GeneralizedTime => parse_utc_time(contents),")]),
    ("leap-100", ["C13", "C14"], [(CAL, "((year % 100 != 0) || (year % 400 == 0))", "((year % 100 != 0) || (year % 200 == 0))")]),
    ("leap-400", ["C14"], [(CAL, "+ ((year - 1) / 400)", "+ ((year - 1) / 401)")]),
    ("month-sum", ["C14"], [(CAL, "JAN + feb + MAR + APR + MAY + JUN + JUL + AUG + SEP + OCT,", "JAN + feb + MAR + APR + MAY + JUN + JUL + AUG + SEP + NOV,")]),
    ("sec-mul", ["C14"], [(CAL, "(minutes * 60) + seconds;", "(minutes * 60) + seconds - (seconds / 59) * (minutes / 59) * (hours / 23);")]),
    ("utf8-lossy", ["C15"], [(PAR, "Err(x) => Err(ASNErrorVariant::BadUTF8(x)),", "Err(x) if x.valid_up_to() > 0 => Ok(create(str::from_utf8(&contents[..x.valid_up_to()]).unwrap_or(\"\"))),\n        Err(x) => Err(ASNErrorVariant::BadUTF8(x)),")]),
    ("utf8-trim", ["C15"], [(PAR, "Ok(x) => Ok(create(x)),", "Ok(x) => Ok(create(x.trim_end_matches('\\0'))),")]),
    ("string-type", ["C15"], [(PAR, "parse_string(contents, |s| IA5String::asn(s))", "parse_string(contents, |s| PrintableString::asn(s))")]),
    ("octet-trim", ["C15"], [(PAR, "ASNTypeId::OctetString => Ok(OctetString::asn(contents)),", "ASNTypeId::OctetString => Ok(OctetString::asn(if contents.len() > 1000 { &contents[..1000] } else { contents })),")]),
    ("wrap-set", ["C16"], [(TY, "ASNType::Set(wrapper) => Some(wrapper.value),\n", "ASNType::Set(wrapper) => Some(wrapper.value),\n            ASNType::Sequence(wrapper) => Some(wrapper.value),\n")]),
    ("wrap-id", ["C16"], [(TY, "ASNType::PrintableString(_) => ASNTypeId::PrintableString", "ASNType::PrintableString(_) => ASNTypeId::IA5String")]),
    ("tag-val", ["C08"], [(PAR, "ASNExplicitTag::new(tag, contents)", "ASNExplicitTag::new(tag & 0x0F, contents)")]),
]
