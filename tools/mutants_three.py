# a third round of changes, written from the properties' titles: unusual inputs, sites that look fine alone
PAR = "rx509/src/der/parser.rs"
PA = "rx509/src/der/parse_all.rs"
TY = "rx509/src/der/types.rs"
RD = "rx509/src/der/reader.rs"
CAL = "rx509/src/der/calendar.rs"
EXT = "rx509/src/x509/ext.rs"
MOD = "rx509/src/x509/mod.rs"
MA = "decoder/src/main.rs"
E1 = [
    ("t3-version-in-lang", ["C38"], [(PAR, "None => Err(ASNErrorVariant::UnsupportedId(id)),\n        }\n    }\n\n    pub(crate) fn get_optional_or_default", "None => Err(ASNErrorVariant::EndOfStream),\n        }\n    }\n\n    pub(crate) fn get_optional_or_default")]),
    ("t3-opt-tag-lost", ["C21"], [(PAR, "            Some(_) => Ok(None),\n            None => Err(ASNErrorVariant::UnsupportedId(id)),\n        }\n    }\n\n    pub(crate) fn get_optional_or_default", "            Some((ASNTypeId::ExplicitTag, actual_tag)) if actual_tag < tag => {\n                self.expect::<ExplicitTag>()?;\n                Ok(None)\n            }\n            Some(_) => Ok(None),\n            None => Err(ASNErrorVariant::UnsupportedId(id)),\n        }\n    }\n\n    pub(crate) fn get_optional_or_default")]),
    ("t3-default-on-error", ["C17"], [(PAR, "        match self.get_optional::<T>()? {\n            Some(value) => Ok(value),\n            None => Ok(default),\n        }", "        match self.get_optional::<T>() {\n            Ok(Some(value)) => Ok(value),\n            _ => Ok(default),\n        }")]),
    ("t3-clear-missing", ["C18"], [(PAR, "            Some(Err(err)) => Err(err),\n            Some(Ok(asn)) => Err(ASNErrorVariant::ExpectedEnd(asn.get_id())),", "            Some(Err(ASNErrorVariant::EndOfStream)) => Ok(()),\n            Some(Err(err)) => Err(err),\n            Some(Ok(asn)) => Err(ASNErrorVariant::ExpectedEnd(asn.get_id())),")]),
    ("t3-expect-swallow", ["C17"], [(PAR, "            Some(Err(err)) => Err(err),\n            None => Ok(None),", "            Some(Err(ASNErrorVariant::EndOfStream)) | None => Ok(None),\n            Some(Err(err)) => Err(err),")]),
    ("t3-len-shift", ["C06"], [(PAR, "        value <<= 8;\n        value |= reader.read_byte()? as usize;", "        value = value.wrapping_mul(256) | reader.read_byte()? as usize;\n        value &= 0x7FFF_FFFF;")]),
    ("t3-take-le", ["C07"], [(RD, "        let remainder = self.bytes.get(count..).ok_or(EndOfStream)?;", "        let remainder = self.bytes.get(count.max(1)..).unwrap_or(&[]);")]),
    ("t3-ctx-primitive", ["C08"], [(PAR, "        } if *tag != 0x1F => Some((ASNTypeId::ExplicitTag, *tag)),", "        } if *tag < 0x1E => Some((ASNTypeId::ExplicitTag, *tag)),")]),
    ("t3-null-ok", ["C09"], [(PAR, "        [x] => Err(ASNErrorVariant::BadBooleanValue(*x)),", "        [x] if x.count_ones() < 7 => Err(ASNErrorVariant::BadBooleanValue(*x)),\n        [_] => Ok(Boolean::asn(true)),")]),
    ("t3-int-strip", ["C10"], [(PAR, "        Ok(Integer::asn(ASNInteger::new(contents)))", "        let contents = match contents {\n            [0xFF, rest @ ..] if rest.first().map_or(false, |x| x & 0x80 != 0) => rest,\n            x => x,\n        };\n        Ok(Integer::asn(ASNInteger::new(contents)))")]),
    ("t3-bits-mask", ["C11"], [(TY, "                self.bit_string.bytes[self.current_bit / 8] << ((self.current_bit % 8) as u8)\n                    & 0x80\n                    != 0,", "                self.bit_string.bytes[(self.current_bit / 8) & 0xFFFF] << ((self.current_bit % 8) as u8)\n                    & 0x80\n                    != 0,")]),
    ("t3-bits-pad", ["C11"], [(PAR, "    if unused_bits > 7 || (unused_bits > 0 && contents.len() == 1) {", "    if unused_bits > 7 || (unused_bits > 1 && contents.len() == 1) {")]),
    ("t3-oid-root", ["C12"], [(PAR, "    items.push(first - root * 40);", "    items.push(if root < 2 { first % 40 } else { first - 80 & 0xFFFF });")]),
    ("t3-oid-empty-tail", ["C12"], [(PAR, "    while !reader.is_empty() {\n        items.push(parse_one(&mut reader)?);\n    }", "    while let Ok(item) = parse_one(&mut reader) {\n        items.push(item);\n    }")]),
    ("t3-sec-60", ["C13"], [(PAR, "    let seconds = read_two_digits(&mut reader, 0, 59)?;", "    let seconds = read_two_digits(&mut reader, 0, if hours == 23 && minutes == 59 { 60 } else { 59 })?;")]),
    ("t3-feb-century", ["C13"], [(CAL, "    if (year % 4 == 0) && ((year % 100 != 0) || (year % 400 == 0)) {", "    if (year % 4 == 0) && ((year % 100 != 0) || (year % 200 == 0)) {")]),
    ("t3-year-ad", ["C14"], [(CAL, "        - ((year - 1) / 100)  // except years divisible by 100,", "        - (year / 100)  // except years divisible by 100,")]),
    ("t3-zone-lower", ["C13"], [(PAR, "    if time_zone != b'Z' || !reader.is_empty() {", "    if !time_zone.eq_ignore_ascii_case(&b'Z') || !reader.is_empty() {")]),
    ("t3-utf8-bom", ["C15"], [(PAR, "        Ok(x) => Ok(create(x)),", "        Ok(x) => Ok(create(x.strip_prefix('\\u{feff}').unwrap_or(x))),")]),
    ("t3-octet-wrapped", ["C15"], [(PAR, "        ASNTypeId::OctetString => Ok(OctetString::asn(contents)),", "        ASNTypeId::OctetString => match contents {\n            [4, n, rest @ ..] if rest.len() == usize::from(*n) => Ok(OctetString::asn(rest)),\n            _ => Ok(OctetString::asn(contents)),\n        },")]),
    ("t3-ia5-as-utf8", ["C16"], [(TY, "            ASNType::UTF8String(wrapper) => Some(wrapper.value),\n            _ => None,", "            ASNType::UTF8String(wrapper) => Some(wrapper.value),\n            ASNType::IA5String(wrapper) if wrapper.value.is_empty() => Some(wrapper.value),\n            _ => None,")]),
    ("t3-tbs-sub", ["C19"], [(MOD, "        Ok(Constructed::new(\n            input,", "        Ok(Constructed::new(\n            if input.len() > 0xFFFF { &input[..0xFFFF] } else { input },")]),
    ("t3-sig-alg", ["C19"], [(MOD, "            tbs_certificate,\n            signature_algorithm,\n            signature_value,\n        }", "            signature_algorithm: AlgorithmIdentifier::new(tbs_certificate.value.signature.algorithm.clone(), signature_algorithm.parameters),\n            tbs_certificate,\n            signature_value,\n        }")]),
    ("t3-ext-dup", ["C22", "C24"], [(EXT, "[2, 5, 29, 19] => BasicConstraints::parse(raw_content)?.into(),", "[2, 5, 29, 19] if !raw_content.is_empty() => BasicConstraints::parse(raw_content)?.into(),")]),
    ("t3-ext-critical-unknown", ["C22"], [(EXT, "            Ok(Extension::new(oid, is_critical, content))", "            let is_critical = is_critical && !matches!(content, SpecificExtension::SubjectKeyIdentifier(_));\n            Ok(Extension::new(oid, is_critical, content))")]),
    ("t3-role-arc", ["C22"], [(EXT, "[1, 3, 6, 1, 4, 1, 50316, 802, 1] =>", "[1, 3, 6, 1, 4, 1, 50316, 802, _] =>")]),
    ("t3-days-open", ["C28"], [(MOD, "        now >= self.not_before && now <= self.not_after", "        (self.not_before..=self.not_after).contains(&now) && self.not_before < self.not_after")]),
    ("t3-alg-params-null", ["C29"], [(MOD, "                parser.expect::<ObjectIdentifier>()?,\n                parser.expect_any_or_end()?,", "                parser.expect::<ObjectIdentifier>()?,\n                parser.expect_any_or_end()?.filter(|p| p.get_id() != ASNTypeId::ExplicitTag),")]),
    ("t3-name-many", ["C27"], [(MOD, "                Some(_) => Err(ASNErrorVariant::UnexpectedOid(oid.clone())),", "                Some(old) if *old == str_value => Ok(()),\n                Some(_) => Err(ASNErrorVariant::UnexpectedOid(oid.clone())),")]),
    ("t3-pa-set", ["C32"], [(PA, "                    ASNType::Set(wrapper) => wrapper.value,", "                    ASNType::Set(wrapper) if !wrapper.value.is_empty() => wrapper.value,")]),
    ("t3-pa-depth", ["C32"], [(PA, "                handler.begin_constructed();", "                if parsers.len() > 64 {\n                    continue;\n                }\n                handler.begin_constructed();")]),
    ("t3-pa-first-error", ["C32"], [(PA, "                handler.on_error(&err);\n                return Err(err);", "                if parsers.len() < 2 {\n                    handler.on_error(&err);\n                }\n                return Err(err);")]),
    ("t3-cli-der-exit", ["C37"], [(MA, '        "--certs" => parse_x509(&get_bytes(&args[2])?),', '        "--certs" => parse_x509(get_bytes(&args[2])?.trim_ascii_end()),')]),
    ("t3-cli-panic", ["C01"], [(TY, "                if let Some((tail, head)) = self.bytes.split_last() {", "                if let (true, Some((tail, head))) = (self.bytes[0] != 0 || self.bytes[1] > 0, self.bytes.split_last()) {")]),
]
EDITS = E1
