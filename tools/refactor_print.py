"""Changes of printing and display that keep the behaviour (used with run_edits.py)."""
from mutants_print import HEX, M, X, P, TY, OID, D
QUIET = ["C31", "C33", "C34", "C35", "C36", "C38", "C40"]
USAGES = '''        if self.digital_signature {
            print_usage("digital signature", printer)
        }
        if self.content_commitment {
            print_usage("content commitment", printer)
        }
        if self.key_encipherment {
            print_usage("key encipherment", printer)
        }
        if self.data_encipherment {
            print_usage("data encipherment", printer)
        }
        if self.key_agreement {
            print_usage("key agreement", printer)
        }
        if self.key_cert_sign {
            print_usage("key cert sign", printer)
        }
        if self.crl_sign {
            print_usage("crl sign", printer)
        }
        if self.encipher_only {
            print_usage("encipher only", printer)
        }
        if self.decipher_only {
            print_usage("decipher only", printer)
        }
'''
TABLE = '''        let usages = [
            (self.digital_signature, "digital signature"),
            (self.content_commitment, "content commitment"),
            (self.key_encipherment, "key encipherment"),
            (self.data_encipherment, "data encipherment"),
            (self.key_agreement, "key agreement"),
            (self.key_cert_sign, "key cert sign"),
            (self.crl_sign, "crl sign"),
            (self.encipher_only, "encipher only"),
            (self.decipher_only, "decipher only"),
        ];
'''
OIDD = '''                if let Some((last, first)) = self.values().split_last() {
                    for value in first {
                        write!(f, "{}.", value)?;
                    }
                    write!(f, "{}", last)?;
                }
                Ok(())'''
INT = '''                if let Some((tail, head)) = self.bytes.split_last() {
                    for byte in head {
                        write!(f, "{:02X}:", byte)?;
                    }
                    write!(f, "{:02X}", tail)
                } else {
                    write!(f, "[]")
                }'''
ITER = '''            for extension in &extensions {
                            extension.print(printer);
                        }'''
EDITS = [
    ("hex-enum", [], [(M, HEX, '''        for chunk in self.chunks(16) {
            printer.begin_line();
            for (i, byte) in chunk.iter().enumerate() {
                if i > 0 {
                    printer.print_str(":");
                }
                printer.print_fmt(&format_args!("{:02X}", byte));
            }
            printer.println_str("");
        }''')]),
    ("hex-helper", [], [(M, HEX, '''        self.chunks(16).for_each(|line| print_line(line, printer));'''), (M, "impl<'a> Printable for &'a [u8] {", '''fn print_line(line: &[u8], printer: &mut dyn LinePrinter) {
    printer.begin_line();
    let (last, first) = match line.split_last() {
        Some(x) => x,
        None => return printer.println_str(""),
    };
    first.iter().for_each(|b| printer.print_fmt(&format_args!("{:02X}:", b)));
    printer.println_fmt(&format_args!("{:02X}", last));
}

impl<'a> Printable for &'a [u8] {''')]),
    ("hex-while", [], [(M, HEX, '''        let mut rest: &[u8] = self;
        while !rest.is_empty() {
            let count = rest.len().min(16);
            let (line, tail) = rest.split_at(count);
            rest = tail;
            printer.begin_line();
            for byte in &line[..count - 1] {
                printer.print_fmt(&format_args!("{:02X}:", byte));
            }
            printer.println_fmt(&format_args!("{:02X}", line[count - 1]));
        }''')]),
    ("hex-flat", [], [(M, HEX, '''        for (i, byte) in self.iter().enumerate() {
            if i % 16 == 0 {
                printer.begin_line();
            }
            if i % 16 == 15 || i + 1 == self.len() {
                printer.println_fmt(&format_args!("{:02X}", byte));
            } else {
                printer.print_fmt(&format_args!("{:02X}:", byte));
            }
        }''')]),
    ("hex-index", [], [(M, HEX, '''        let mut start = 0;
        while start < self.len() {
            let end = if self.len() - start > 16 { start + 16 } else { self.len() };
            printer.begin_line();
            for i in start..end - 1 {
                printer.print_fmt(&format_args!("{:02X}:", self[i]));
            }
            printer.println_fmt(&format_args!("{:02X}", self[end - 1]));
            start = end;
        }''')]),
    ("hex-string", [], [(M, HEX, '''        for chunk in self.chunks(16) {
            let text: Vec<String> = chunk.iter().map(|b| format!("{:02X}", b)).collect();
            printer.begin_line();
            printer.println_str(&text.join(":"));
        }''')]),
    ("usage-table", [], [(X, USAGES, TABLE + '''        for (set, label) in usages.iter() {
            if *set {
                print_usage(label, printer);
            }
        }
''')]),
    ("usage-filter", [], [(X, USAGES, TABLE + '''        for (_, label) in usages.iter().filter(|(set, _)| *set) {
            print_usage(label, printer);
        }
''')]),
    ("usage-reorder", [], [(X, USAGES, "\n".join(reversed([x + "        }\n" for x in USAGES.split("        }\n") if x.strip()])))]),
    ("oid-enum", [], [(TY, OIDD, '''                for (i, value) in self.values().iter().enumerate() {
                    if i > 0 {
                        f.write_str(".")?;
                    }
                    write!(f, "{}", value)?;
                }
                Ok(())''')]),
    ("oid-sep", [], [(TY, OIDD, '''                let mut sep = "";
                for value in self.values() {
                    write!(f, "{}{}", sep, value)?;
                    sep = ".";
                }
                Ok(())''')]),
    ("oid-join", [], [(TY, OIDD, '''                let parts: Vec<String> = self.values().iter().map(|x| x.to_string()).collect();
                f.write_str(&parts.join("."))''')]),
    ("oid-first", [], [(TY, OIDD, '''                let mut values = self.values().iter();
                if let Some(first) = values.next() {
                    write!(f, "{}", first)?;
                    for value in values {
                        write!(f, ".{}", value)?;
                    }
                }
                Ok(())''')]),
    ("oid-if", [], [(TY, "        match get_oid(self.values()) {\n            Some(oid) => f.write_str(oid.to_str()),\n            None => {", "        if let Some(oid) = get_oid(self.values()) {\n            return write!(f, \"{}\", oid.to_str());\n        }\n        match () {\n            () => {")]),
    ("oid-table", [], [(OID, "        [2, 5, 4, 3] => Some(KnownOID::CommonName),", "        [2, 5, 4, last] if *last == 3 => Some(KnownOID::CommonName),")]),
    ("oid-order", [], [(OID, "        [1, 3, 101, 112] => Some(KnownOID::Algorithm(AlgorithmID::Ed25519)),\n", ""), (OID, "        _ => None,", "        [1, 3, 101, 112] => Some(KnownOID::Algorithm(AlgorithmID::Ed25519)),\n        _ => None,")]),
    ("int-enum", [], [(TY, INT, '''                if self.bytes.is_empty() {
                    return f.write_str("[]");
                }
                for (i, byte) in self.bytes.iter().enumerate() {
                    if i != 0 {
                        write!(f, ":")?;
                    }
                    write!(f, "{:02X}", byte)?;
                }
                Ok(())''')]),
    ("int-index", [], [(TY, INT, '''                let n = self.bytes.len();
                if n == 0 {
                    return write!(f, "[]");
                }
                for i in 0..n {
                    write!(f, "{:02X}{}", self.bytes[i], if i + 1 < n { ":" } else { "" })?;
                }
                Ok(())''')]),
    ("int-if", [], [(TY, "        match self.as_i32() {\n            Some(x) => write!(f, \"{}\", x),\n            None => {\n                if", "        if let Some(x) = self.as_i32() {\n            return x.fmt(f);\n        }\n        match 0 {\n            _ => {\n                if")]),
    ("indent-while", [], [(P, '''        for _ in 0..self.indent {
            print!("  ")
        }''', '''        let mut left = self.indent;
        while left > 0 {
            print!("  ");
            left -= 1;
        }''')]),
    ("indent-repeat", [], [(P, '''        for _ in 0..self.indent {
            print!("  ")
        }''', '''        print!("{}", "  ".repeat(self.indent));''')]),
    ("indent-inline", [], [(P, "        self.print_indent();\n    }\n\n    fn print_fmt", "        (0..self.indent).for_each(|_| print!(\"  \"));\n    }\n\n    fn print_fmt"), (P, "    fn print_indent(&self) {", "    #[allow(dead_code)]\n    fn print_indent(&self) {")]),
    ("println-two", [], [(P, '        println!("{}", line)', '        self.print_str(line);\n        println!()')]),
    ("begin-explicit", [], [(P, "        self.indent += 1;", "        let deeper = self.indent + 1;\n        self.indent = deeper;")]),
    ("san-helper", [], [(X, '''        for name in &self.names {
            printer.begin_line();
            name.print(printer);
        }''', '''        let mut names = self.names.iter();
        while let Some(name) = names.next() {
            printer.begin_line();
            name.print(printer);
        }''')]),
    ("san-foreach", [], [(X, '''        for name in &self.names {
            printer.begin_line();
            name.print(printer);
        }''', '''        self.names.iter().for_each(|name| {
            printer.begin_line();
            name.print(printer);
        });''')]),
    ("san-index", [], [(X, '''        for name in &self.names {
            printer.begin_line();
            name.print(printer);
        }''', '''        for i in 0..self.names.len() {
            printer.begin_line();
            self.names[i].print(printer);
        }''')]),
    ("eku-fmt", [], [(X, 'printer.println_fmt(&format_args!("{:?}", purpose));', 'printer.print_fmt(&format_args!("{:?}", purpose));\n            printer.println_str("");')]),
    ("rdn-table", [], [(M, '''        if let Some(value) = self.country_name {
            printer.begin_line();
            printer.println_fmt(&format_args!("C: {}", value));
        }
        if let Some(value) = self.state_or_province_unit_name {
            printer.begin_line();
            printer.println_fmt(&format_args!("ST: {}", value));
        }''', '''        for (label, value) in [("C", self.country_name), ("ST", self.state_or_province_unit_name)].iter() {
            if let Some(value) = value {
                printer.begin_line();
                printer.println_fmt(&format_args!("{}: {}", label, value));
            }
        }''')]),
    ("rdn-closure", [], [(M, '''        if let Some(value) = self.country_name {
            printer.begin_line();
            printer.println_fmt(&format_args!("C: {}", value));
        }''', '''        let mut line = |label: &str, value: Option<&str>| {
            if let Some(value) = value {
                printer.begin_line();
                printer.print_str(label);
                printer.print_str(": ");
                printer.println_str(value);
            }
        };
        line("C", self.country_name);''')]),
    ("issuer-match", [], [(M, '''        if let Ok(result) = self.issuer.parse() {
            print_type("issuer", &result, printer);
        } else {
            print_type("issuer (raw)", &self.issuer, printer);
        }''', '''        match self.issuer.parse() {
            Err(_) => print_type("issuer (raw)", &self.issuer, printer),
            Ok(name) => print_type("issuer", &name, printer),
        }''')]),
    ("name-helper", [], [(M, '''        if let Ok(result) = self.issuer.parse() {
            print_type("issuer", &result, printer);
        } else {
            print_type("issuer (raw)", &self.issuer, printer);
        }''', '''        print_name("issuer", "issuer (raw)", &self.issuer, printer);'''), (M, '''        if let Ok(result) = self.subject.parse() {
            print_type("subject", &result, printer);
        } else {
            print_type("subject (raw)", &self.subject, printer);
        }''', '''        print_name("subject", "subject (raw)", &self.subject, printer);'''), (M, "impl<'a> Printable for TBSCertificate<'a> {", '''fn print_name(label: &str, raw: &str, name: &Name, printer: &mut dyn LinePrinter) {
    match name.parse() {
        Ok(parsed) => print_type(label, &parsed, printer),
        Err(_) => print_type(raw, name, printer),
    }
}

impl<'a> Printable for TBSCertificate<'a> {''')]),
    ("ext-flat", [], [(M, '''                    if !extensions.is_empty() {
                        printer.begin_line();
                        printer.println_str("Extensions");

                        printer.begin_type();
                        for extension in &extensions {
                            extension.print(printer);
                        }
                        printer.end_type();
                    }''', '''                    if extensions.is_empty() {
                        return;
                    }
                    printer.begin_line();
                    printer.println_str("Extensions");
                    printer.begin_type();
                    extensions.iter().for_each(|x| x.print(printer));
                    printer.end_type();''')]),
    ("validity-lines", [], [(M, '''        printer.begin_line();
        printer.println_fmt(&format_args!("not before: {}", self.not_before.value));

        printer.begin_line();
        printer.println_fmt(&format_args!("not after: {}", self.not_after.value));''', '''        for (label, time) in [("not before", &self.not_before), ("not after", &self.not_after)].iter() {
            printer.begin_line();
            printer.print_fmt(&format_args!("{}: ", label));
            printer.println_fmt(&format_args!("{}", time.value));
        }''')]),
    ("name-if", [], [(X, '            GeneralName::Rfc822Name(value) => {\n                printer.println_fmt(&format_args!("RFC822 Name: {}", value))\n            }', '            GeneralName::Rfc822Name(value) => {\n                let text: String = format!("RFC822 Name: {}", value);\n                printer.println_str(&text)\n            }')]),
    ("error-fmt", [], [(TY, 'ASNErrorVariant::BadBooleanValue(value) => write!(f, "Bad boolean value: {}", value)', 'ASNErrorVariant::BadBooleanValue(value) => {\n                f.write_str("Bad boolean value: ")?;\n                core::fmt::Display::fmt(value, f)\n            }')]),
    ("error-let", [], [(TY, '''            ASNErrorVariant::BadOidLength => f.write_str("Bad OID length"),''', '''            ASNErrorVariant::BadOidLength => {
                let text = "Bad OID length";
                write!(f, "{}", text)
            }''')]),
    ("asn-label", [], [(TY, '''            ASNType::IA5String(wrapper) => {
                f.write_str("IA5String: ")?;
                f.write_str(wrapper.value)
            }''', '''            ASNType::IA5String(wrapper) => write!(f, "IA5String: {}", wrapper.value),''')]),
    ("dump-level", [], [(D, '''                self.indent += 1;
                for chunk in octets.chunks(16) {
                    self.print_indent();
                    if let Some((last, first)) = chunk.split_last() {
                        for byte in first {
                            print!("{:02X}:", byte)
                        }
                        println!("{:02X}", last)
                    }
                }
                self.indent -= 1;''', '''                self.begin_constructed();
                self.dump(octets);
                self.end_constructed();'''), (D, "    pub fn new() -> ParsePrinter {", '''    fn dump(&self, octets: &[u8]) {
        for chunk in octets.chunks(16) {
            self.print_indent();
            for (i, byte) in chunk.iter().enumerate() {
                if i > 0 {
                    print!(":");
                }
                print!("{:02X}", byte);
            }
            println!();
        }
    }

    pub fn new() -> ParsePrinter {''')]),
    ("dump-match", [], [(D, '''        if let ASNType::BitString(wrapper) = asn {
            if let Some(octets) = wrapper.value.octets() {
                self.indent += 1;''', '''        let octets = match asn {
            ASNType::BitString(wrapper) => wrapper.value.octets(),
            _ => None,
        };
        {
            if let Some(octets) = octets {
                self.indent += 1;''')]),
]
