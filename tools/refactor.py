"""Changes that keep the behaviour: every check has to stay quiet, and should stay decided (used with run_edits.py)."""
TY = "rx509/src/der/types.rs"
PAR = "rx509/src/der/parser.rs"
CAL = "rx509/src/der/calendar.rs"
RD = "rx509/src/der/reader.rs"
ALLP = "rx509/src/der/parse_all.rs"
EXT = "rx509/src/x509/ext.rs"
MOD = "rx509/src/x509/mod.rs"
EDITS = [
    ("bool-if", [], [(PAR, """    match contents {
        [0xFF] => Ok(Boolean::asn(true)),
        [0x00] => Ok(Boolean::asn(false)),
        [x] => Err(ASNErrorVariant::BadBooleanValue(*x)),
        _ => Err(ASNErrorVariant::BadBooleanLength(contents.len())),
    }""", """    if contents.len() != 1 {
        return Err(ASNErrorVariant::BadBooleanLength(contents.len()));
    }
    let value = match contents[0] {
        0 => false,
        255 => true,
        other => return Err(ASNErrorVariant::BadBooleanValue(other)),
    };
    Ok(Boolean::asn(value))""")]),
    ("null-match", [], [(PAR, """    if contents.is_empty() {
        Ok(ASNType::Null)
    } else {
        Err(ASNErrorVariant::NullWithNonEmptyContents(contents.len()))
    }""", """    match contents.len() {
        0 => Ok(ASNType::Null),
        n => Err(ASNErrorVariant::NullWithNonEmptyContents(n)),
    }""")]),
    ("int-first", [], [(PAR, """    if contents.is_empty() {
        Err(ASNErrorVariant::ZeroLengthInteger)
    } else {
        Ok(Integer::asn(ASNInteger::new(contents)))
    }""", """    contents
        .first()
        .map(|_| Integer::asn(ASNInteger::new(contents)))
        .ok_or(ASNErrorVariant::ZeroLengthInteger)""")]),
    ("bits-split", [], [(PAR, """    if contents.is_empty() {
        return Err(ASNErrorVariant::EndOfStream);
    }

    let unused_bits = contents[0];
    // there are no bits to leave unused if there are no octets
    if unused_bits > 7 || (unused_bits > 0 && contents.len() == 1) {
        return Err(ASNErrorVariant::BitStringUnusedBitsTooLarge(unused_bits));
    }

    Ok(BitString::asn(ASNBitString::new(
        unused_bits,
        &contents[1..],
    )))""", """    let (&unused_bits, octets) = contents
        .split_first()
        .ok_or(ASNErrorVariant::EndOfStream)?;
    // there are no bits to leave unused if there are no octets
    let max_unused = if octets.is_empty() { 0 } else { 7 };
    if unused_bits > max_unused {
        return Err(ASNErrorVariant::BitStringUnusedBitsTooLarge(unused_bits));
    }

    Ok(BitString::asn(ASNBitString::new(unused_bits, octets)))""")]),
    ("len-fold", [], [(PAR, """    let mut value: usize = 0;

    for _ in 0..count_of_bytes {
        value <<= 8;
        value |= reader.read_byte()? as usize;
    }
""", """    let value = reader
        .take(count_of_bytes as usize)?
        .iter()
        .fold(0usize, |acc, byte| (acc << 8) | usize::from(*byte));
""")]),
    ("len-mul", [], [(PAR, """    let mut value: usize = 0;

    for _ in 0..count_of_bytes {
        value <<= 8;
        value |= reader.read_byte()? as usize;
    }
""", """    let mut value: usize = 0;
    let mut i = 0;
    while i < count_of_bytes {
        value = value * 256 + reader.read_byte()? as usize;
        i += 1;
    }
""")]),
    ("len-u64", [], [(PAR, "    if (value as u64) < min_value_for_count {", "    let too_small = min_value_for_count > value as u64;\n    if too_small {")]),
    ("oid-nested", [], [(PAR, """        let mut sum: u32 = 0;
        let mut count: u32 = 0;
        loop {
            // only allow 4*7 = 28 bits so that we don't overflow u32
            if count > 3 {
                return Err(ASNErrorVariant::BadOidLength);
            };

            let next_byte = reader.read_byte()?;
            // the encoding of a subidentifier must not be padded with leading zeros
            if count == 0 && next_byte == 0b1000_0000 {
                return Err(ASNErrorVariant::BadOidLength);
            }
            let has_next: bool = (next_byte & 0b1000_0000) != 0;
            let value: u32 = (next_byte & 0b0111_1111) as u32;

            sum <<= 7;
            sum += value;

            count += 1;

            if !has_next {
                return Ok(sum);
            }
        }""", """        let mut sum: u32 = 0;
        // only allow 4*7 = 28 bits so that we don't overflow u32
        for index in 0..4 {
            let next_byte = reader.read_byte()?;
            // the encoding of a subidentifier must not be padded with leading zeros
            if index == 0 && next_byte == 0x80 {
                return Err(ASNErrorVariant::BadOidLength);
            }
            sum = (sum << 7) | u32::from(next_byte & 0x7F);
            if next_byte < 0x80 {
                return Ok(sum);
            }
        }
        Err(ASNErrorVariant::BadOidLength)""")]),
    ("oid-push", [], [(PAR, """    let root = core::cmp::min(first / 40, 2);

    items.push(root);
    items.push(first - root * 40);

    while !reader.is_empty() {
        items.push(parse_one(&mut reader)?);
    }
""", """    let (root, second) = if first < 40 {
        (0, first)
    } else if first < 80 {
        (1, first - 40)
    } else {
        (2, first - 80)
    };
    items.extend_from_slice(&[root, second]);

    loop {
        if reader.is_empty() {
            break;
        }
        let arc = parse_one(&mut reader)?;
        items.push(arc);
    }
""")]),
    ("time-order", [], [(PAR, """    let month = read_two_digits(&mut reader, 1, 12)?;
    let days_in_month = calendar::days_in_month(year, month);
    let day_of_month = read_two_digits(&mut reader, 1, days_in_month)?;
    let hours = read_two_digits(&mut reader, 0, 23)?;
    let minutes = read_two_digits(&mut reader, 0, 59)?;
    let seconds = read_two_digits(&mut reader, 0, 59)?;
""", """    let month = read_two_digits(&mut reader, 1, 12)?;
    let day_of_month = read_two_digits(&mut reader, 1, 31)?;
    let hours = read_two_digits(&mut reader, 0, 23)?;
    let minutes = read_two_digits(&mut reader, 0, 59)?;
    let seconds = read_two_digits(&mut reader, 0, 59)?;
    if day_of_month > calendar::days_in_month(year, month) {
        return Err(ASNErrorVariant::BadUTCTime);
    }
""")]),
    ("time-range", [], [(PAR, """    if value < min || value > max {
        return Err(ASNErrorVariant::BadUTCTime);
    }
    Ok(value)""", """    if (min..=max).contains(&value) {
        Ok(value)
    } else {
        Err(ASNErrorVariant::BadUTCTime)
    }""")]),
    ("time-match", [], [(PAR, """        if DIGIT.contains(&b) {
            return Ok(u64::from(b - DIGIT.start()));
        }
        Err(ASNErrorVariant::BadUTCTime)""", """        match b {
            b'0'..=b'9' => Ok((b - b'0') as u64),
            _ => {
                let _ = DIGIT;
                Err(ASNErrorVariant::BadUTCTime)
            }
        }""")]),
    ("time-isdigit", [], [(PAR, "        if DIGIT.contains(&b) {", "        if b.is_ascii_digit() {")]),
    ("time-zone", [], [(PAR, """    let time_zone = reader
        .read_byte()
        .map_err(|_| ASNErrorVariant::BadUTCTime)?;
    if time_zone != b'Z' || !reader.is_empty() {
        return Err(ASNErrorVariant::BadUTCTime);
    }
""", """    if reader.remainder() != b"Z" {
        return Err(ASNErrorVariant::BadUTCTime);
    }
""")]),
    ("cal-table", [], [(CAL, """    const JAN: u64 = 31;
    let feb = days_in_feb(year);
    const MAR: u64 = 31;
    const APR: u64 = 30;
    const MAY: u64 = 31;
    const JUN: u64 = 30;
    const JUL: u64 = 31;
    const AUG: u64 = 31;
    const SEP: u64 = 30;
    const OCT: u64 = 31;
    const NOV: u64 = 30;
    let days_before_month_in_year = match month {
        1 => 0,
        2 => JAN,
        3 => JAN + feb,
        4 => JAN + feb + MAR,
        5 => JAN + feb + MAR + APR,
        6 => JAN + feb + MAR + APR + MAY,
        7 => JAN + feb + MAR + APR + MAY + JUN,
        8 => JAN + feb + MAR + APR + MAY + JUN + JUL,
        9 => JAN + feb + MAR + APR + MAY + JUN + JUL + AUG,
        10 => JAN + feb + MAR + APR + MAY + JUN + JUL + AUG + SEP,
        11 => JAN + feb + MAR + APR + MAY + JUN + JUL + AUG + SEP + OCT,
        12 => JAN + feb + MAR + APR + MAY + JUN + JUL + AUG + SEP + OCT + NOV,
        _ => unreachable!(), // `read_two_digits` already bounds-checked it.
    };
""", """    const BEFORE: [u64; 12] = [0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334];
    let leap_day = if month > 2 && days_in_feb(year) == 29 { 1 } else { 0 };
    let days_before_month_in_year = BEFORE[month as usize - 1] + leap_day;
""")]),
    ("cal-sum", [], [(CAL, """    let days_before_month_in_year = match month {""", """    let days_before_month_in_year = (1..month).map(|m| days_in_month(year, m)).sum::<u64>();
    let _ = match month {""")]),
    ("cal-leap", [], [(CAL, "    if (year % 4 == 0) && ((year % 100 != 0) || (year % 400 == 0)) {\n        29\n    } else {\n        28\n    }", "    let leap = if year % 100 == 0 {\n        year % 400 == 0\n    } else {\n        year % 4 == 0\n    };\n    28 + u64::from(leap)")]),
    ("cal-secs", [], [(CAL, "        (days_before * 24 * 60 * 60) + (hours * 60 * 60) + (minutes * 60) + seconds;", "        ((days_before * 24 + hours) * 60 + minutes) * 60 + seconds;")]),
    ("id-shift", [], [(TY, """        let class = match byte & 0b1100_0000 {
            0b0000_0000 => TagClass::Universal,
            0b0100_0000 => TagClass::Application,
            0b1000_0000 => TagClass::ContextSpecific,
            _ => TagClass::Private,
        };
""", """        let class = match byte >> 6 {
            0 => TagClass::Universal,
            1 => TagClass::Application,
            2 => TagClass::ContextSpecific,
            _ => TagClass::Private,
        };
""")]),
    ("int-i32", [], [(TY, """        let mut acc: i32 = if self.bytes[0] & 0x80 != 0 { -1 } else { 0 };
        for byte in self.bytes {
            acc <<= 8;
            acc |= *byte as i32;
        }
        Some(acc)""", """        let mut acc = i32::from(self.bytes[0] as i8);
        for byte in &self.bytes[1..] {
            acc = (acc << 8) | i32::from(*byte);
        }
        Some(acc)""")]),
    ("int-array", [], [(TY, """        let mut acc: i32 = if self.bytes[0] & 0x80 != 0 { -1 } else { 0 };
        for byte in self.bytes {
            acc <<= 8;
            acc |= *byte as i32;
        }
        Some(acc)""", """        let fill = if self.bytes[0] >= 0x80 { 0xFF } else { 0x00 };
        let mut octets = [fill; 4];
        octets[4 - self.bytes.len()..].copy_from_slice(self.bytes);
        Some(i32::from_be_bytes(octets))""")]),
    ("bits-iter", [], [(TY, """        if self.current_bit < self.bit_string.size() {
            let result = Some(
                self.bit_string.bytes[self.current_bit / 8] << ((self.current_bit % 8) as u8)
                    & 0x80
                    != 0,
            );
            self.current_bit += 1;
            result
        } else {
            None
        }""", """        if self.current_bit >= self.bit_string.size() {
            return None;
        }
        let octet = self.bit_string.bytes[self.current_bit / 8];
        let shift = 7 - self.current_bit % 8;
        self.current_bit += 1;
        Some((octet >> shift) & 1 == 1)""")]),
    ("reader-index", [], [(RD, """        let (first, remainder) = self.bytes.split_first().ok_or(EndOfStream)?;
        self.bytes = remainder;
        Ok(*first)""", """        if self.bytes.is_empty() {
            return Err(EndOfStream);
        }
        let first = self.bytes[0];
        self.bytes = &self.bytes[1..];
        Ok(first)""")]),
    ("reader-split", [], [(RD, """        let ret = self.bytes.get(0..count).ok_or(EndOfStream)?;
        let remainder = self.bytes.get(count..).ok_or(EndOfStream)?;
        self.bytes = remainder;
        Ok(ret)""", """        if count > self.bytes.len() {
            return Err(EndOfStream);
        }
        let (ret, remainder) = self.bytes.split_at(count);
        self.bytes = remainder;
        Ok(ret)""")]),
    ("reader-pos", [], [(RD, """pub struct Reader<'a> {
    bytes: &'a [u8],
}
""", """pub struct Reader<'a> {
    all: &'a [u8],
    pos: usize,
}
"""), (RD, "        Self { bytes }", "        Self { all: bytes, pos: 0 }"), (RD, "        self.bytes = &[];", "        self.pos = self.all.len();"), (RD, "        self.bytes.is_empty()", "        self.pos == self.all.len()"), (RD, "        self.bytes.len()", "        self.all.len() - self.pos"), (RD, "        match self.bytes.first() {\n            None => Err(EndOfStream),\n            Some(x) => Ok(*x),\n        }", "        self.all.get(self.pos).copied().ok_or(EndOfStream)"), (RD, """        let (first, remainder) = self.bytes.split_first().ok_or(EndOfStream)?;
        self.bytes = remainder;
        Ok(*first)""", """        let first = self.peek_byte()?;
        self.pos += 1;
        Ok(first)"""), (RD, """        let ret = self.bytes.get(0..count).ok_or(EndOfStream)?;
        let remainder = self.bytes.get(count..).ok_or(EndOfStream)?;
        self.bytes = remainder;
        Ok(ret)""", """        let ret = self.remainder().get(..count).ok_or(EndOfStream)?;
        self.pos += count;
        Ok(ret)"""), (RD, "    pub fn remainder(&self) -> &'a [u8] {\n        self.bytes", "    pub fn remainder(&self) -> &'a [u8] {\n        &self.all[self.pos..]")]),
    ("one-type-helper", [], [(PAR, """    match read_type(&id) {
        Some((asn_type, tag)) => {
            let contents = get_contents(reader)?;
            parse_content(&asn_type, tag, contents)
        }
        None => Err(ASNErrorVariant::UnsupportedId(id)),
    }
}
""", """    let (asn_type, tag) = match read_type(&id) {
        Some(found) => found,
        None => return Err(ASNErrorVariant::UnsupportedId(id)),
    };
    let length = parse_length(reader)?;
    let contents = reader.take(length)?;
    parse_content(&asn_type, tag, contents)
}
""")]),
    ("id-table", [], [(PAR, """        } => match tag {
            0x10 => Some((ASNTypeId::Sequence, *tag)),
            0x11 => Some((ASNTypeId::Set, *tag)),

            _ => None,
        },
""", """        } if *tag == 0x10 || *tag == 0x11 => {
            let asn_type = if *tag == 0x10 {
                ASNTypeId::Sequence
            } else {
                ASNTypeId::Set
            };
            Some((asn_type, *tag))
        }
""")]),
    ("get-optional", [], [(PAR, """        if self.reader.is_empty() {
            return Ok(None);
        }

        let id = Identifier::from(self.reader.peek_byte()?);

        match read_type(&id) {
            Some((ref id, _)) if *id == T::get_id() => Ok(Some(self.expect::<T>()?)),
            Some(_) => Ok(None),
            None => Err(ASNErrorVariant::UnsupportedId(id)),
        }""", """        let id = match self.reader.peek_byte() {
            Ok(byte) => Identifier::from(byte),
            Err(_) => return Ok(None),
        };

        let (found, _) = match read_type(&id) {
            Some(x) => x,
            None => return Err(ASNErrorVariant::UnsupportedId(id)),
        };
        if found != T::get_id() {
            return Ok(None);
        }
        self.expect::<T>().map(Some)""")]),
    ("expect-map", [], [(PAR, """        match self.expect_any() {
            Ok(asn_type) => {
                let id = asn_type.get_id();
                match T::get_value(asn_type) {
                    Some(value) => Ok(value),
                    None => Err(ASNErrorVariant::UnexpectedType(T::get_id(), id)),
                }
            }
            Err(err) => Err(err),
        }""", """        let asn_type = self.expect_any()?;
        let actual = asn_type.get_id();
        T::get_value(asn_type).ok_or_else(|| ASNErrorVariant::UnexpectedType(T::get_id(), actual))""")]),
    ("expect-any", [], [(PAR, """        match self.next() {
            Some(Ok(asn)) => Ok(asn),
            Some(Err(err)) => Err(err),
            None => Err(ASNErrorVariant::EndOfStream),
        }""", """        self.next().unwrap_or(Err(ASNErrorVariant::EndOfStream))""")]),
    ("expect-any-or-end", [], [(PAR, """        match self.next() {
            Some(Ok(asn)) => Ok(Some(asn)),
            Some(Err(err)) => Err(err),
            None => Ok(None),
        }""", """        self.next().transpose()""")]),
    ("next-noclear", [], [(PAR, """        match parse_one_type(&mut self.reader) {
            Err(e) => {
                self.reader.clear();
                Some(Err(e))
            }
            Ok(token) => Some(Ok(token)),
        }""", """        let result = parse_one_type(&mut self.reader);
        if result.is_err() {
            self.reader.clear();
        }
        Some(result)""")]),
    ("ku-zip", [], [(EXT, "            offset += 1;\n", "            offset = offset + 1;\n")]),
    ("move-length", [],
     [(PAR, "fn parse_length(reader: &mut Reader) -> Result<usize, ASNErrorVariant> {\n    let first_byte", "use length::parse_length;\nmod length {\nuse super::*;\npub(super) fn parse_length(reader: &mut Reader) -> Result<usize, ASNErrorVariant> {\n    let first_byte"),
      (PAR, "    Ok(value)\n}\n\nfn parse_one_type<'a>", "    Ok(value)\n}\n}\n\nfn parse_one_type<'a>")]),
    ("move-one", [],
     [(PAR, "fn parse_one_type<'a>(reader: &mut Reader<'a>) -> ASNResult<'a> {\n    let id", "use one::parse_one_type;\nmod one {\nuse super::*;\npub(super) fn parse_one_type<'a>(reader: &mut Reader<'a>) -> ASNResult<'a> {\n    let id"),
      (PAR, "}\n\nfn read_type(", "}\n}\n\nfn read_type(")]),
]
