"""Changes of printing and display that break a property (used with run_edits.py)."""
M = "rx509/src/x509/mod.rs"
X = "rx509/src/x509/ext.rs"
P = "rx509/src/x509/printer.rs"
TY = "rx509/src/der/types.rs"
OID = "rx509/src/der/oid.rs"
D = "decoder/src/der_printer.rs"
HEX = '''        for chunk in self.chunks(16) {
            printer.begin_line();
            if let Some((last, first)) = chunk.split_last() {
                for byte in first {
                    printer.print_fmt(&format_args!("{:02X}:", byte));
                }
                printer.println_fmt(&format_args!("{:02X}", last));
            }
        }'''
EDITS = [
    # C31
    ("oid-swap", ["C31"], [(OID, "[2, 5, 4, 10] => Some(KnownOID::OrganizationName)", "[2, 5, 4, 10] => Some(KnownOID::OrganizationalUnitName)")]),
    ("oid-extra", ["C31"], [(OID, "        [1, 3, 101, 112] =>", "        [1, 3, 101, 112] | [1, 3, 101, 113] =>")]),
    ("oid-prefix", ["C31"], [(OID, "[2, 5, 4, 3] =>", "[2, 5, 4, 3, ..] =>")]),
    ("oid-missing", ["C31"], [(OID, "        [2, 5, 4, 7] => Some(KnownOID::LocalityName),\n", "")]),
    ("oid-wild", ["C31"], [(OID, "[2, 5, 4, 8] =>", "[2, 5, _, 8] =>")]),
    ("oid-str", ["C31"], [(OID, 'KnownOID::LocalityName => "Locality Name"', 'KnownOID::LocalityName => "Country Name"')]),
    ("oid-skip", ["C31"], [(TY, "for value in first {\n                        write!(f, \"{}.\", value)?;", "for value in first.iter().take(32) {\n                        write!(f, \"{}.\", value)?;")]),
    ("oid-order", ["C31"], [(TY, "for value in first {\n                        write!(f, \"{}.\", value)?;", "for value in first.iter().rev() {\n                        write!(f, \"{}.\", value)?;")]),
    ("oid-last", ["C31"], [(TY, 'write!(f, "{}", last)?;\n                }\n                Ok(())', 'if first.len() < 20 { write!(f, "{}", last)?; }\n                }\n                Ok(())')]),
    ("oid-sep", ["C31"], [(TY, 'write!(f, "{}.", value)?;', 'if *value > 0 { write!(f, "{}.", value)?; } else { write!(f, "{}", value)?; }')]),
    ("oid-hex", ["C31"], [(TY, 'write!(f, "{}.", value)?;', 'write!(f, "{:x}.", value)?;')]),
    # C33
    ("name-end", ["C33"], [(M, "        self.inner.print(printer);\n        printer.end_type();", "        self.inner.print(printer);\n        if !self.inner.is_empty() { printer.end_type(); }")]),
    ("san-early", ["C33"], [(X, "        for name in &self.names {\n            printer.begin_line();", "        for name in &self.names {\n            if let GeneralName::OtherName(_) = name { return; }\n            printer.begin_line();")]),
    ("san-continue", ["C33"], [(X, "            printer.begin_line();\n            name.print(printer);", "            printer.begin_type();\n            printer.begin_line();\n            name.print(printer);\n            if let GeneralName::IpAddress(_) = name { continue; }\n            printer.end_type();")]),
    ("ip-end", ["C33"], [(X, "                value.print(printer);\n                printer.end_type();", "                if value.len() == 16 { printer.begin_type(); }\n                value.print(printer);\n                printer.end_type();")]),
    ("err-end", ["C33"], [(M, "                    printer.begin_line();\n                    printer.println_fmt(&format_args!(\"**Error** parsing", "                    printer.end_type();\n                    printer.begin_line();\n                    printer.println_fmt(&format_args!(\"**Error** parsing")]),
    ("console-end", ["C33"], [(P, "        self.indent -= 1;", "        self.indent = self.indent.saturating_sub(2);")]),
    ("console-begin", ["C33"], [(P, "        self.indent += 1;", "        if self.indent < 64 { self.indent += 1; }")]),
    ("parse-end", ["C33"], [(D, "                self.indent -= 1;", "                if !octets.is_empty() { self.indent -= 1; }")]),
    ("parse-begin", ["C33"], [(D, "    fn end_constructed(&mut self) {\n        self.indent -= 1;", "    fn end_constructed(&mut self) {\n        self.indent = 0;")]),
    # C34
    ("usage-line", ["C34"], [(X, "            printer.begin_type();\n            printer.begin_line();\n            printer.println_str(description);", "            printer.begin_type();\n            if description != \"encipher only\" { printer.begin_line(); }\n            printer.println_str(description);")]),
    ("san-line", ["C34"], [(X, "            printer.begin_line();\n            name.print(printer);", "            name.print(printer);")]),
    ("registered-line", ["C34"], [(X, "            GeneralName::RegisteredId(value) => {\n", "            GeneralName::RegisteredId(value) => {\n                printer.begin_line();\n")]),
    ("ip-noeol", ["C34"], [(X, 'printer.println_str("IP Address:");', 'printer.print_str("IP Address:");')]),
    ("err-line", ["C34"], [(M, "                    printer.begin_line();\n                    printer.println_fmt(&format_args!(\"**Error** parsing", "                    printer.println_fmt(&format_args!(\"**Error** parsing")]),
    ("role-noeol", ["C34"], [(X, 'printer.println_fmt(&format_args!("role: {}", self.role))', 'printer.print_fmt(&format_args!("role: {}", self.role))')]),
    ("hex-line", ["C34"], [(M, "            printer.begin_line();\n            if let Some((last, first))", "            if chunk.len() > 1 { printer.begin_line(); }\n            if let Some((last, first))")]),
    ("console-indent", ["C34"], [(P, "for _ in 0..self.indent {", "for _ in 0..self.indent.min(8) {")]),
    ("console-str", ["C34"], [(P, '    fn print_str(&mut self, s: &str) {\n        print!("{}", s)', '    fn print_str(&mut self, s: &str) {\n        print!("{}", s.trim())')]),
    ("console-eol", ["C34"], [(P, '    fn println_str(&mut self, line: &str) {\n        println!("{}", line)', '    fn println_str(&mut self, line: &str) {\n        if line.is_empty() { return; }\n        println!("{}", line)')]),
    ("console-fmt-eol", ["C34"], [(P, '    fn print_fmt(&mut self, args: &core::fmt::Arguments) {\n        print!("{}", args)', '    fn print_fmt(&mut self, args: &core::fmt::Arguments) {\n        println!("{}", args)')]),
    # C35
    ("swap-validity", ["C35"], [(M, 'format_args!("not before: {}", self.not_before.value)', 'format_args!("not before: {}", self.not_after.value)')]),
    ("swap-uid", ["C35"], [(M, 'print_type("subject unique ID", subject_unique_id, printer);', 'print_type("issuer unique ID", subject_unique_id, printer);')]),
    ("uid-other", ["C35"], [(M, "if let Some(subject_unique_id) = &self.subject_unique_id {", "if let Some(subject_unique_id) = self.issuer_unique_id.as_ref().or(self.subject_unique_id.as_ref()) {")]),
    ("subject-issuer", ["C35"], [(M, "if let Ok(result) = self.subject.parse() {", "if let Ok(result) = self.issuer.parse() {")]),
    ("raw-swap", ["C35"], [(M, 'print_type("subject (raw)", &self.subject, printer);', 'print_type("subject (raw)", &self.issuer, printer);')]),
    ("flag-swap", ["C35"], [(X, "        if self.encipher_only {", "        if self.decipher_only {")]),
    ("flag-label", ["C35"], [(X, 'print_usage("crl sign", printer)', 'print_usage("key cert sign", printer)')]),
    ("flag-missing", ["C35"], [(X, '        if self.data_encipherment {\n            print_usage("data encipherment", printer)\n        }\n', "")]),
    ("flag-else", ["C35"], [(X, '        if self.decipher_only {', "        if self.decipher_only && !self.encipher_only {")]),
    ("rdn-swap", ["C35"], [(M, "if let Some(value) = self.organizational_unit_name {", "if let Some(value) = self.organization.and(self.organizational_unit_name) {")]),
    ("rdn-cn", ["C35"], [(M, "if let Some(value) = self.common_name {", "if let Some(value) = self.common_name.or(self.organization) {")]),
    ("critical", ["C35"], [(X, 'format_args!("critical: {}", self.critical)', 'format_args!("critical: {}", !self.critical)')]),
    ("san-skip", ["C35"], [(X, "for name in &self.names {", "for name in self.names.iter().skip(1) {")]),
    ("ext-first", ["C35"], [(M, "for extension in &extensions {", "for extension in extensions.iter().take(1) {")]),
    ("eku-pair", ["C35"], [(X, "for purpose in &self.ext_key_usages {", "for purpose in self.ext_key_usages.iter().step_by(2) {")]),
    ("spki-sig", ["C35"], [(M, 'print_type("signature", &self.signature, printer);', 'print_type("signature", &self.subject_public_key_info.algorithm, printer);')]),
    ("path-zero", ["C35"], [(X, "if let Some(constraint) = self.path_length_constraint {", "if let Some(constraint) = self.path_length_constraint.filter(|x| *x > 0) {")]),
    ("ski-name", ["C35"], [(X, "Self::BasicConstraints(_) => \"Basic Constraints\"", "Self::BasicConstraints(_) => \"Key Usage\"")]),
    ("ca-false", ["C35"], [(X, 'format_args!("CA: {}", self.ca)', 'format_args!("CA: {}", self.ca || self.path_length_constraint.is_some())')]),
    ("dns-uri", ["C35"], [(X, 'format_args!("DNS Name: {}", value)', 'format_args!("Uniform Resource Identifier: {}", value)')]),
    # C36
    ("hex-15", ["C36"], [(M, "self.chunks(16)", "self.chunks(15)")]),
    ("hex-exact", ["C36"], [(M, "self.chunks(16)", "self.chunks_exact(16)")]),
    ("hex-lower", ["C36"], [(M, 'format_args!("{:02X}", last)', 'format_args!("{:02x}", last)')]),
    ("hex-nopad", ["C36"], [(M, 'format_args!("{:02X}:", byte)', 'format_args!("{:X}:", byte)')]),
    ("hex-take", ["C36"], [(M, "for byte in first {", "for byte in first.iter().take(14) {")]),
    ("hex-rev", ["C36"], [(M, "for byte in first {", "for byte in first.iter().rev() {")]),
    ("hex-first", ["C36"], [(M, "if let Some((last, first)) = chunk.split_last() {", "if let Some((last, first)) = chunk.split_first() {")]),
    ("hex-sep", ["C36"], [(M, 'format_args!("{:02X}", last)', 'format_args!("{:02X}:", last)')]),
    ("hex-limit", ["C36"], [(M, "for chunk in self.chunks(16) {", "for chunk in self.chunks(16).take(64) {")]),
    ("int-rev", ["C36"], [(TY, "for byte in head {", "for byte in head.iter().rev() {")]),
    ("int-tail", ["C36"], [(TY, '                    write!(f, "{:02X}", tail)', '                    if head.len() == 4 && head[0] == 0 { return Ok(()); }\n                    write!(f, "{:02X}", tail)')]),
    ("int-skip0", ["C36"], [(TY, "for byte in head {", "for byte in head.iter().skip_while(|b| **b == 0) {")]),
    ("int-dec", ["C36"], [(TY, 'Some(x) => write!(f, "{}", x),', 'Some(x) => write!(f, "{}", x as i16),')]),
    ("int-abs", ["C36"], [(TY, 'Some(x) => write!(f, "{}", x),', 'Some(x) => write!(f, "{}", x.wrapping_abs()),')]),
    ("dump-8", ["C36"], [(D, "octets.chunks(16)", "octets.chunks(8)")]),
    ("dump-last", ["C36"], [(D, 'print!("{:02X}:", byte)', 'print!("{:02X}:", last)')]),
    # C38
    ("err-text", ["C38"], [(TY, '"Bad boolean value: {}", value', '"Bad boolean value: {}", *value & 0x7F')]),
    ("err-same", ["C38"], [(TY, 'f.write_str("Bad OID length")', 'f.write_str("Bad UTC time string")')]),
    ("err-swap", ["C38"], [(TY, '"Value {} encoded using {} bytes", value, count', '"Value {} encoded using {} bytes", count, value')]),
    ("err-swap2", ["C38"], [(TY, '"Expected {:?}, but type is {:?}", expected, actual', '"Expected {:?}, but type is {:?}", actual, expected')]),
    ("err-lost", ["C38"], [(TY, '"Expected end of stream but type is {:?}", actual', '"Expected end of stream"')]),
    ("err-shared", ["C38"], [(TY, 'ASNErrorVariant::UnexpectedTag(tag) => {\n                write!(f, "The explicit tag \'{}\' was unexpected.", tag)', 'ASNErrorVariant::UnexpectedTag(_) => {\n                write!(f, "An explicit tag was unexpected.")')]),
    # C40
    ("asn-swap", ["C40"], [(TY, 'f.write_str("PrintableString: ")?;', 'f.write_str("IA5String: ")?;')]),
    ("asn-set", ["C40"], [(TY, 'ASNType::Set(_) => write!(f, "Set")', 'ASNType::Set(_) => write!(f, "Sequence")')]),
    ("asn-bool", ["C40"], [(TY, 'write!(f, "Boolean: {}", wrapper.value)', 'write!(f, "Boolean: {}", !wrapper.value)')]),
    ("asn-tag", ["C40"], [(TY, 'write!(f, "[{}]", wrapper.value.value)', 'write!(f, "[{}]", wrapper.value.contents.len())')]),
    ("asn-utf8", ["C40"], [(TY, 'f.write_str("UTF8String: ")?;\n                f.write_str(wrapper.value)', 'f.write_str("UTF8String: ")?;\n                f.write_str(wrapper.value.lines().next().unwrap_or(""))')]),
    ("dump-odd", ["C40"], [(D, "        self.print_indent();\n        println!(\"{}\", asn);", "        if let ASNType::Null = asn { return; }\n        self.print_indent();\n        println!(\"{}\", asn);")]),
    ("dump-err", ["C40"], [(D, 'println!("Error: {:?}", err);', 'let _ = err; println!("Error");')]),
]
