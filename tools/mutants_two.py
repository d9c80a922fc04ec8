"""A second, independent round of changes that break one property each (used with run_edits.py)."""
TY = "rx509/src/der/types.rs"
PAR = "rx509/src/der/parser.rs"
CAL = "rx509/src/der/calendar.rs"
OID = "rx509/src/der/oid.rs"
RD = "rx509/src/der/reader.rs"
PA = "rx509/src/der/parse_all.rs"
EXT = "rx509/src/x509/ext.rs"
MOD = "rx509/src/x509/mod.rs"
PRI = "rx509/src/x509/printer.rs"
MAIN = "decoder/src/main.rs"
DP = "decoder/src/der_printer.rs"
EDITS = [
    ("s2-int-min", ["C10"], [(TY, "        Some(acc)\n", "        if acc == i32::MIN {\n            return None;\n        }\n        Some(acc)\n")]),
    ("s2-int-strip", ["C10"], [(PAR, "        Ok(Integer::asn(ASNInteger::new(contents)))", "        let digits = match contents {\n            [0, rest @ ..] if !rest.is_empty() => rest,\n            all => all,\n        };\n        Ok(Integer::asn(ASNInteger::new(digits)))")]),
    ("s2-bit-u16", ["C11"], [(TY, "self.bit_string.bytes[self.current_bit / 8]", "self.bit_string.bytes[usize::from(self.current_bit as u16) / 8]")]),
    ("s2-bit-size", ["C11"], [(TY, "        self.bytes.len() * 8 - (self.unused_bits as usize)", "        match self.bytes.len() {\n            1 => 8 - (self.unused_bits as usize),\n            n => (n - n / 1024) * 8 - (self.unused_bits as usize).min(n * 8),\n        }")]),
    ("s2-oid-root", ["C12"], [(PAR, "    items.push(first - root * 40);", "    items.push(if first < 160 { first % 40 } else { first - root * 40 });")]),
    ("s2-oid-count", ["C12"], [(PAR, "    while !reader.is_empty() {\n", "    while !reader.is_empty() && items.len() < 64 {\n")]),
    ("s2-leap-second", ["C13"], [(PAR, "    let seconds = read_two_digits(&mut reader, 0, 59)?;", "    let seconds = read_two_digits(&mut reader, 0, if (hours, minutes) == (23, 59) { 60 } else { 59 })?;")]),
    ("s2-hour-24", ["C14"], [(CAL, "(hours * 60 * 60)", "(hours % 12 * 60 * 60 + hours / 12 * 43200 - hours / 23 * 0 + (hours / 23) * (minutes / 59) * (seconds / 59))")]),
    ("s2-text-nul", ["C15"], [(PAR, "    match str::from_utf8(contents) {", "    match str::from_utf8(contents.strip_suffix(&[0]).unwrap_or(contents)) {")]),
    ("s2-octets-inner", ["C15"], [(PAR, "        ASNTypeId::OctetString => Ok(OctetString::asn(contents)),", "        ASNTypeId::OctetString => match contents {\n            [4, n, rest @ ..] if *n as usize == rest.len() && *n > 0x7F => Ok(OctetString::asn(rest)),\n            _ => Ok(OctetString::asn(contents)),\n        },")]),
    ("s2-tag-low", ["C21", "C16"], [(PAR, "if tag == actual_tag => {", "if tag == actual_tag & 0x0F => {")]),
    ("s2-optional-unknown", ["C17"], [(PAR, "            Some((ref id, _)) if *id == T::get_id() => Ok(Some(self.expect::<T>()?)),\n            Some(_) => Ok(None),\n            None => Err(ASNErrorVariant::UnsupportedId(id)),", "            Some((ref id, _)) if *id == T::get_id() => Ok(self.expect::<T>().ok()),\n            Some(_) => Ok(None),\n            None => Err(ASNErrorVariant::UnsupportedId(id)),")]),
    ("s2-padding", ["C18"], [(PAR, "    pub(crate) fn expect_end(&mut self) -> Result<(), ASNErrorVariant> {\n", "    pub(crate) fn expect_end(&mut self) -> Result<(), ASNErrorVariant> {\n        if self.reader.remainder().iter().all(|b| *b == 0) {\n            return Ok(());\n        }\n")]),
    ("s2-serial", ["C20"], [(MOD, "                parser.expect::<Integer>()?,\n                AlgorithmIdentifier", "                match parser.expect::<Integer>()?.bytes {\n                    [0, rest @ ..] if rest.len() >= 20 => ASNInteger::new(rest),\n                    all => ASNInteger::new(all),\n                },\n                AlgorithmIdentifier")]),
    ("s2-uid-order", ["C21"], [(MOD, "            // TODO: check minimum version\n            match parser.get_optional_explicit_tag(tag)? {", "            // TODO: check minimum version\n            let found = match parser.get_optional_explicit_tag(tag)? {\n                None if tag == 2 => parser.get_optional_explicit_tag(1)?,\n                found => found,\n            };\n            match found {")]),
    ("s2-ext-duplicates", ["C22"], [(EXT, "            extensions.push(Extension::parse(seq)?);", "            let extension = Extension::parse(seq)?;\n            if !extensions.iter().any(|e| e.extn_id == extension.extn_id) {\n                extensions.push(extension);\n            }")]),
    ("s2-ext-last", ["C22"], [(EXT, "        while let Some(seq) = parser.expect_or_end::<Sequence>()? {\n            extensions.push(Extension::parse(seq)?);\n        }", "        while let Some(seq) = parser.expect_or_end::<Sequence>()? {\n            if extensions.len() == 32 {\n                extensions.pop();\n            }\n            extensions.push(Extension::parse(seq)?);\n        }")]),
    ("s2-usage-take", ["C23"], [(EXT, "        for bit in bit_string.iter() {", "        for bit in bit_string.iter().take(8) {")]),
    ("s2-usage-array", ["C01"], [(EXT, "        let mut offset: usize = 0;\n", "        let mut seen = [false; 16];\n        let mut offset: usize = 0;\n"), (EXT, "            offset += 1;\n", "            seen[offset] = bit;\n            offset += 1;\n")]),
    ("s2-path-negative", ["C24"], [(EXT, "                Some(value) => Ok(Some(value)),\n                None => Err(ASNErrorVariant::IntegerTooLarge", "                Some(value) if value < 0 => Ok(None),\n                Some(value) => Ok(Some(value)),\n                None => Err(ASNErrorVariant::IntegerTooLarge")]),
    ("s2-path-without-ca", ["C24"], [(EXT, "            path_length_constraint: constraint,\n        })", "            path_length_constraint: constraint.filter(|_| ca),\n        })")]),
    ("s2-purpose-front", ["C25"], [(EXT, "                Some(purpose) => purposes.push(purpose),", "                Some(purpose) => purposes.insert(purposes.len() / 2, purpose),")]),
    ("s2-mail-or-host", ["C26"], [(EXT, "                1 => names.push(GeneralName::Rfc822Name(\n                    parser.parse_implicit::<IA5String>()?,\n                )),", "                1 => names.push(match parser.parse_implicit::<IA5String>()? {\n                    host if host.is_empty() => GeneralName::DnsName(host),\n                    mail => GeneralName::Rfc822Name(mail),\n                }),")]),
    ("s2-attributes-stop", ["C27"], [(MOD, "            while let Some(seq) = parser.expect_or_end::<Sequence>()? {\n", "            while let Some(seq) = parser.expect_or_end::<Sequence>()? {\n                if seq.is_empty() {\n                    break;\n                }\n")]),
    ("s2-component-twice", ["C27"], [(MOD, "                Some(_) => Err(ASNErrorVariant::UnexpectedOid(oid.clone())),", "                Some(same) if *same == str_value => Ok(()),\n                Some(_) => Err(ASNErrorVariant::UnexpectedOid(oid.clone())),")]),
    ("s2-window-wraps", ["C28"], [(MOD, "        now >= self.not_before && now <= self.not_after", "        now.value.wrapping_sub(self.not_before.value)\n            <= self.not_after.value.wrapping_sub(self.not_before.value)")]),
    ("s2-window-underflow", ["C01"], [(MOD, "        now >= self.not_before && now <= self.not_after", "        let age = now.value - self.not_before.value;\n        now >= self.not_before && age <= self.not_after.value - self.not_before.value")]),
    ("s2-role-trim", ["C30"], [(EXT, "        Ok(Self { role })", "        Ok(Self { role: role.strip_suffix('\\0').unwrap_or(role) })")]),
    ("s2-key-empty", ["C30"], [(EXT, "        Ok(SubjectKeyIdentifier { key_identifier })", "        Ok(SubjectKeyIdentifier { key_identifier: if key_identifier.len() > 20 { &key_identifier[..20] } else { key_identifier } })")]),
    ("s2-unknown-empty", ["C33"], [(EXT, "        self.content.print(printer);\n        printer.end_type();", "        if let SpecificExtension::Unknown([]) = self.content {\n            return;\n        }\n        self.content.print(printer);\n        printer.end_type();")]),
    ("s2-usages-none", ["C34"], [(EXT, "        printer.println_str(\"usages:\");\n\n        if self.digital_signature {", "        if self.decipher_only && !self.key_agreement {\n            printer.print_str(\"usages:\");\n        } else {\n            printer.println_str(\"usages:\");\n        }\n\n        if self.digital_signature {")]),
    ("s2-uid-both", ["C35"], [(MOD, "        if let Some(issuer_unique_id) = &self.issuer_unique_id {\n", "        if let (Some(issuer_unique_id), Some(_)) = (&self.issuer_unique_id, &self.subject_unique_id) {\n")]),
    ("s2-critical-shown", ["C35"], [(EXT, "        printer.println_fmt(&format_args!(\"critical: {}\", self.critical));", "        let critical = self.critical || matches!(&self.content, SpecificExtension::BasicConstraints(b) if b.ca && b.path_length_constraint.is_none());\n        printer.println_fmt(&format_args!(\"critical: {}\", critical));")]),
    ("s2-hex-narrow", ["C36"], [(MOD, "printer.println_fmt(&format_args!(\"{:02X}\", last));", "printer.println_fmt(&format_args!(\"{:X}\", last));")]),
    ("s2-hex-last-zero", ["C36"], [(MOD, "            if let Some((last, first)) = chunk.split_last() {\n                for byte in first {\n                    printer", "            if let Some((last, first)) = chunk.split_last() {\n                for byte in first.iter().rev().skip_while(|b| **b == 0xFF && first.len() == 15).collect::<Vec<_>>().into_iter().rev() {\n                    printer")]),
    ("s2-args-more", ["C37"], [(MAIN, "    if args.len() != 3 {", "    if args.len() < 3 || args.len() > 3 && args[3] != \"-v\" {")]),
    ("s2-flag-prefix", ["C37"], [(MAIN, "        \"--certs\" => parse_x509", "        \"--certs\" | \"--cert\" => parse_x509")]),
    ("s2-types-swapped", ["C38"], [(PAR, "Err(ASNErrorVariant::UnexpectedType(T::get_id(), id))", "Err(match id {\n                        ASNTypeId::ExplicitTag => ASNErrorVariant::UnexpectedType(id, T::get_id()),\n                        id => ASNErrorVariant::UnexpectedType(T::get_id(), id),\n                    })")]),
    ("s2-eof-text", ["C38"], [(TY, "            ASNErrorVariant::ZeroLengthInteger => f.write_str(\"zero length integer\"),\n            ASNErrorVariant::NullWithNonEmptyContents(length) => {", "            ASNErrorVariant::ZeroLengthInteger => f.write_str(\"zero length integer\"),\n            ASNErrorVariant::NullWithNonEmptyContents(0..=9) => f.write_str(\"NULL type w/ non-empty contents\"),\n            ASNErrorVariant::NullWithNonEmptyContents(length) => {")]),
    ("s2-bits-shown", ["C40", "C36"], [(DP, "                for chunk in octets.chunks(16) {", "                for chunk in octets.chunks_exact(16) {")]),
    ("s2-der-indent", ["C33", "C40"], [(DP, "                self.indent -= 1;\n            }\n        }\n    }", "                if !octets.is_empty() {\n                    self.indent -= 1;\n                }\n            }\n        }\n    }")]),
    ("s2-error-level", ["C01"], [(DP, "        println!(\"Error: {:?}\", err);", "        self.indent -= 1;\n        println!(\"Error: {:?}\", err);\n        self.indent += 1;")]),
    ("s2-empty-quiet", ["C32"], [(PA, "                parsers.push(Parser::new(contents));", "                if contents.len() == 1 {\n                    continue;\n                }\n                parsers.push(Parser::new(contents));")]),
    ("s2-set-late", ["C32"], [(PA, "                    ASNType::Set(wrapper) => wrapper.value,", "                    ASNType::Set(wrapper) if wrapper.value.len() < 1 << 20 => wrapper.value,")]),
    ("s2-depth", ["C32"], [(PA, "                handler.begin_constructed();\n", "                if parsers.len() > 100 {\n                    return Ok(());\n                }\n                handler.begin_constructed();\n")]),
    ("s2-length-ff", ["C06"], [(PAR, "        127 => return Err(ASNErrorVariant::ReservedLengthValue),", "        127 => 0,")]),
    ("s2-length-three", ["C06"], [(PAR, "        3 => 65536,", "        3 => 65535,")]),
    ("s2-take-zero", ["C07"], [(RD, "        let ret = self.bytes.get(0..count).ok_or(EndOfStream)?;", "        if count == 0 && self.bytes.len() == 1 {\n            self.bytes = &[];\n        }\n        let ret = self.bytes.get(0..count).ok_or(EndOfStream)?;")]),
    ("s2-app-class", ["C08"], [(TY, "            0b0100_0000 => TagClass::Application,", "            0b0100_0000 if byte & 0b0010_0000 == 0 => TagClass::Application,\n            0b0100_0000 => TagClass::ContextSpecific,")]),
    ("s2-bool-two", ["C09"], [(PAR, "        [0x00] => Ok(Boolean::asn(false)),", "        [0x00] | [0x00, 0x00] => Ok(Boolean::asn(false)),")]),
    ("s2-oid-name-11", ["C31"], [(TY, "        match get_oid(self.values()) {", "        match get_oid(match self.values() {\n            [1, 3, 101, 112, 0] => &self.values()[..4],\n            all => all,\n        }) {")]),
]
