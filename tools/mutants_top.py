"""Mutants of generic decoding, the tool, and the properties of the whole program (C01-C05, C32, C37)."""
PA = "rx509/src/der/parse_all.rs"
MA = "decoder/src/main.rs"
TY = "rx509/src/der/types.rs"
P = "rx509/src/der/parser.rs"
RD = "rx509/src/der/reader.rs"
X = "rx509/src/x509/mod.rs"
EX = "rx509/src/x509/ext.rs"
PR = "rx509/src/x509/printer.rs"
OI = "rx509/src/der/oid.rs"
DP = "decoder/src/der_printer.rs"
CA = "rx509/src/der/calendar.rs"
EDITS = [
    ("ev-end-root", ["C32"], [(PA, "                if !parsers.is_empty() {\n                    handler.end_constructed();\n                }", "                handler.end_constructed();")]),
    ("ev-no-end", ["C32"], [(PA, "if !parsers.is_empty() {", "if parsers.len() > 1 {")]),
    ("ev-begin-first", ["C32"], [(PA, "                handler.on_type(&asn);\n                let contents = match asn {", "                if let ASNType::Sequence(_) = asn { handler.begin_constructed(); }\n                handler.on_type(&asn);\n                let contents = match asn {"), (PA, "                handler.begin_constructed();\n                parsers.push", "                if parsers.len() != 3 { handler.begin_constructed(); }\n                parsers.push")]),
    ("ev-set", ["C32"], [(PA, "                    ASNType::Set(wrapper) => wrapper.value,\n", "")]),
    ("ev-swallow", ["C32"], [(PA, "                handler.on_error(&err);\n                return Err(err);", "                handler.on_error(&err);\n                if parsers.len() > 4 { parsers.pop(); handler.end_constructed(); continue; }\n                return Err(err);")]),
    ("ev-error-twice", ["C32"], [(PA, "                handler.on_error(&err);", "                handler.on_error(&err);\n                if parsers.len() > 1 { handler.on_error(&err); }")]),
    ("ev-error-ends", ["C32"], [(PA, "                handler.on_error(&err);", "                handler.on_error(&err);\n                for _ in 1..parsers.len() { handler.end_constructed(); }")]),
    ("ev-error-ok", ["C32"], [(PA, "                return Err(err);", "                return if parsers.len() > 1 { Ok(()) } else { Err(err) };")]),
    ("ev-empty-seq", ["C32"], [(PA, "                handler.begin_constructed();\n                parsers.push(Parser::new(contents));", "                if contents.is_empty() { continue; }\n                handler.begin_constructed();\n                parsers.push(Parser::new(contents));")]),
    ("ev-empty-ends", ["C32"], [(PA, "                parsers.push(Parser::new(contents));", "                if contents.is_empty() { handler.end_constructed(); }\n                parsers.push(Parser::new(contents));")]),
    ("ev-deep", ["C32"], [(PA, "                handler.begin_constructed();\n", "                if parsers.len() > 64 { continue; }\n                handler.begin_constructed();\n")]),
    ("ev-replace", ["C32"], [(PA, "                parsers.push(Parser::new(contents));", "                if let ASNType::ExplicitTag(_) = asn { parsers.pop(); }\n                parsers.push(Parser::new(contents));"), (PA, "let contents = match asn {", "let contents = match &asn {")]),
    ("ev-null", ["C32"], [(PA, "                handler.on_type(&asn);", "                if asn != ASNType::Null { handler.on_type(&asn); }")]),
    ("ev-tag-contents", ["C32"], [(PA, "ASNType::ExplicitTag(wrapper) => wrapper.value.contents,", "ASNType::ExplicitTag(wrapper) if wrapper.value.contents.len() < 16 => wrapper.value.contents,")]),
    ("ev-input", ["C32"], [(PA, "vec![Parser::new(input)]", "vec![Parser::new(if input.len() > 65536 { &input[..65536] } else { input })]")]),
    ("ev-error-late", ["C32"], [(PA, "            Some(Err(err)) => {\n                let err = err.into();\n                handler.on_error(&err);", "            Some(Err(err)) => {\n                let err: ASNError = err.into();\n                if parsers.len() < 2 { handler.on_error(&err); }")]),
    # ---- C37
    ("to-four", ["C37"], [(MA, "if args.len() != 3 {", "if args.len() < 3 {")]),
    ("to-exit0", ["C37"], [(MA, "        eprintln!(\"requires exactly 2 arguments: decoder <--der | --certs> <filename>\");\n        process::exit(-1);", "        eprintln!(\"requires exactly 2 arguments: decoder <--der | --certs> <filename>\");\n        process::exit(256);")]),
    ("to-usage-ok", ["C37"], [(MA, "        process::exit(-1);\n    }\n\n    match", "        return Ok(());\n    }\n\n    match")]),
    ("to-flag-ok", ["C37"], [(MA, "            eprintln!(\"Unknown flag: {}\", unknown);\n            process::exit(-1);", "            eprintln!(\"Unknown flag: {}\", unknown);\n            Ok(())")]),
    ("to-prefix", ["C37"], [(MA, "        \"--certs\" =>", "        flag if flag.starts_with(\"--cert\") =>")]),
    ("to-short-flag", ["C37"], [(MA, "        \"--der\" =>", "        \"--der\" | \"-d\" =>")]),
    ("to-case", ["C37"], [(MA, "match args[1].as_str() {", "match args[1].to_lowercase().as_str() {")]),
    ("to-limit", ["C37"], [(MA, "    f.read_to_end(&mut vec)?;", "    f.take(1 << 24).read_to_end(&mut vec)?;"), (MA, "let mut f =", "let f =")]),
    ("to-truncate", ["C37"], [(MA, "    Ok(vec)", "    if vec.len() > 1 << 20 {\n        vec.truncate(1 << 20);\n    }\n    Ok(vec)")]),
    ("to-trim", ["C37"], [(MA, "    Ok(vec)", "    if vec.last() == Some(&b'\\n') {\n        vec.pop();\n    }\n    Ok(vec)")]),
    ("to-read-err", ["C37"], [(MA, "    f.read_to_end(&mut vec)?;", "    let _ = f.read_to_end(&mut vec);")]),
    ("to-open-err", ["C37"], [(MA, "\"--der\" => parse_der(&get_bytes(&args[2])?),", "\"--der\" => parse_der(&get_bytes(&args[2]).unwrap_or_default()),")]),
    ("to-missing-ok", ["C37"], [(MA, "\"--certs\" => parse_x509(&get_bytes(&args[2])?),", "\"--certs\" => match get_bytes(&args[2]) {\n            Ok(bytes) => parse_x509(&bytes),\n            Err(err) => {\n                eprintln!(\"{}\", err);\n                Ok(())\n            }\n        },")]),
    ("to-wrong-file", ["C37"], [(MA, "\"--certs\" => parse_x509(&get_bytes(&args[2])?)", "\"--certs\" => parse_x509(&get_bytes(&args[1])?)")]),
    ("to-skip-bom", ["C37"], [(MA, "parse_der(&get_bytes(&args[2])?)", "{\n            let bytes = get_bytes(&args[2])?;\n            parse_der(if bytes.len() > 3 && bytes[0] == 0xEF { &bytes[3..] } else { &bytes })\n        }")]),
    ("to-fallback", ["C37"], [(MA, "            Err(err) => eprintln!(\"Error: {}\", err),\n        };", "            Err(err) => {\n                eprintln!(\"Error: {}\", err);\n                return parse_der(bytes);\n            }\n        };")]),
    ("to-err-stdout", ["C37"], [(MA, "            Err(err) => eprintln!(\"Error: {}\", err),", "            Err(err) => println!(\"Error: {}\", err),")]),
    ("to-err-quiet", ["C37"], [(MA, "            eprintln!(\"Error: {}\", err);\n            Ok(())\n        })", "            let _ = err;\n            Ok(())\n        })")]),
    ("to-cert-exit", ["C37"], [(MA, "            Ok(cert) => cert.print(&mut ConsoleLinePrinter::new()),", "            Ok(cert) => {\n                cert.print(&mut ConsoleLinePrinter::new());\n                process::exit(bytes.len() as i32 & 1)\n            }")]),
    ("to-twice", ["C37"], [(MA, "            Ok(cert) => cert.print(&mut ConsoleLinePrinter::new()),", "            Ok(cert) => {\n                let mut printer = ConsoleLinePrinter::new();\n                cert.print(&mut printer);\n                if cert.signature_value.size() % 8 != 0 {\n                    cert.print(&mut printer);\n                }\n            }")]),
    ("to-no-print", ["C37"], [(MA, "            Ok(cert) => cert.print(&mut ConsoleLinePrinter::new()),", "            Ok(cert) => {\n                if cert.signature_value.size() > 0 {\n                    cert.print(&mut ConsoleLinePrinter::new())\n                }\n            }")]),
    # ---- C03
    ("re-parse-all", ["C03"], [(PA, """pub fn parse_all(input: &[u8], handler: &mut dyn ParseHandler) -> Result<(), ASNError> {""", """pub fn parse_all(input: &[u8], handler: &mut dyn ParseHandler) -> Result<(), ASNError> {
    if input.first() == Some(&0xA0) && input.len() > 200 {
        let mut parser = Parser::new(input);
        while let Some(item) = parser.next() {
            match item {
                Ok(asn) => {
                    handler.on_type(&asn);
                    if let ASNType::ExplicitTag(wrapper) = asn {
                        handler.begin_constructed();
                        parse_all(wrapper.value.contents, handler)?;
                        handler.end_constructed();
                    }
                }
                Err(err) => {
                    let err = err.into();
                    handler.on_error(&err);
                    return Err(err);
                }
            }
        }
        return Ok(());
    }""")]),
    ("re-validate", ["C03"], [(P, """        ASNTypeId::Sequence => parse_seq(contents),""", """        ASNTypeId::Sequence => {
            check_nested(contents)?;
            parse_seq(contents)
        }"""), (P, "pub(crate) struct Parser<'a> {", """fn check_nested(contents: &[u8]) -> Result<(), ASNErrorVariant> {
    for item in Parser::new(contents) {
        item?;
    }
    Ok(())
}

pub(crate) struct Parser<'a> {""")]),
    ("re-length", ["C03"], [(P, "pub(crate) struct Parser<'a> {", """#[allow(dead_code)]
fn skip_zeros<'a>(reader: &mut Reader<'a>) -> Result<u8, ASNErrorVariant> {
    match reader.read_byte()? {
        0 => skip_zeros(reader),
        x => Ok(x),
    }
}

pub(crate) struct Parser<'a> {""")]),
    ("re-mutual", ["C03"], [(X, """        printer.begin_type();
        self.inner.print(printer);""", """        printer.begin_type();
        nested(self.inner, printer);"""), (X, "impl<'a> Printable for Name<'a> {", """fn nested(bytes: &[u8], printer: &mut dyn LinePrinter) {
    match Parser::new(bytes).next() {
        Some(Ok(ASNType::ExplicitTag(wrapper))) => print_type("tagged", &Name::new(wrapper.value.contents), printer),
        _ => bytes.print(printer),
    }
}

impl<'a> Printable for Name<'a> {""")]),
    ("re-display", ["C03"], [(TY, """            ASNType::ExplicitTag(wrapper) => write!(f""", """            ASNType::ExplicitTag(wrapper) if wrapper.value.contents.len() > 2 && wrapper.value.contents[0] == 0xA0 => {
                match crate::der::parser::Parser::new(wrapper.value.contents).next() {
                    Some(Ok(inner)) => write!(f, "[{}] {}", wrapper.value.value, inner),
                    _ => f.write_str("[?]"),
                }
            }
            ASNType::ExplicitTag(wrapper) => write!(f""")]),
    ("re-closure", ["C03"], [(PA, "    let mut parsers = vec![Parser::new(input)];\n", """    fn walk(depth: usize, bytes: &[u8], visit: &mut dyn FnMut(usize, &ASNType)) {
        for item in Parser::new(bytes).flatten() {
            visit(depth, &item);
            if let ASNType::ExplicitTag(wrapper) = item {
                walk(depth + 1, wrapper.value.contents, visit);
            }
        }
    }
    let mut deepest = 0;
    walk(0, input, &mut |depth, _| deepest = deepest.max(depth));
    let mut parsers = vec![Parser::new(input)];
    parsers.reserve(deepest);
""")]),
    ("re-drop", ["C03"], [(PA, "pub fn parse_all(", """struct Open<'a> {
    parser: Parser<'a>,
    outer: Option<Box<Open<'a>>>,
}

#[allow(dead_code)]
pub fn depth(input: &[u8]) -> usize {
    let mut open = Open { parser: Parser::new(input), outer: None };
    let mut n = 0;
    while let Some(Ok(ASNType::Sequence(wrapper))) = open.parser.next() {
        open = Open { parser: Parser::new(wrapper.value), outer: Some(Box::new(open)) };
        n += 1;
    }
    let _ = &open.outer;
    n
}

pub fn parse_all(""")]),
    ("re-skip", ["C03"], [(P, "            Ok(token) => Some(Ok(token)),", "            Ok(ASNType::Null) if self.reader.peek_byte().is_ok() => self.next(),\n            Ok(token) => Some(Ok(token)),")]),
    # ---- C05
    ("ef-pivot-clock", ["C05"], [(P, "impl TimeType {", """fn pivot() -> u64 {
    match UtcTime::now() {
        Ok(now) if now.value > 2_524_608_000 => 60,
        _ => 50,
    }
}

impl TimeType {"""), (P, "fn parse_utc_time(contents: &[u8]) -> ASNResult {", "fn parse_utc_time(contents: &[u8]) -> ASNResult {\n    let _ = pivot();")]),
    ("ef-clock", ["C05"], [(X, "    fn parse(input: &[u8]) -> Result<Validity, ASNErrorVariant> {", "    fn parse(input: &[u8]) -> Result<Validity, ASNErrorVariant> {\n        let _started = std::time::Instant::now();")]),
    ("ef-env", ["C05"], [(EX, "    pub fn parse(input: &'a [u8]) -> Result<Extension, ASNError> {", "    pub fn parse(input: &'a [u8]) -> Result<Extension, ASNError> {\n        let _lenient = std::env::var_os(\"RASN_LENIENT\").is_some();")]),
    ("ef-static", ["C05"], [(P, "fn parse_one_type<'a>(", """static SEEN: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);

fn parse_one_type<'a>("""), (P, "    let id = Identifier::from(reader.read_byte()?);", "    let id = Identifier::from(reader.read_byte()?);\n    SEEN.fetch_add(1, std::sync::atomic::Ordering::Relaxed);")]),
    ("ef-thread-local", ["C05"], [(P, "fn parse_one_type<'a>(", """thread_local! {
    static DEPTH: std::cell::Cell<usize> = const { std::cell::Cell::new(0) };
}

fn parse_one_type<'a>("""), (P, "    let id = Identifier::from(reader.read_byte()?);", "    let id = Identifier::from(reader.read_byte()?);\n    DEPTH.with(|d| d.set(d.get().wrapping_add(1)));")]),
    ("ef-once", ["C05"], [(TY, "impl<'a> ASNInteger<'a> {", "static STYLE: std::sync::OnceLock<bool> = std::sync::OnceLock::new();\n\nimpl<'a> ASNInteger<'a> {"), (TY, "    pub fn as_i32(&self) -> Option<i32> {", "    pub fn as_i32(&self) -> Option<i32> {\n        let _ = STYLE.get_or_init(|| self.bytes.len() > 8);")]),
    ("ef-debug", ["C05"], [(P, "        None => Err(ASNErrorVariant::UnsupportedId(id)),", "        None => {\n            eprintln!(\"unsupported: {:?}\", id);\n            Err(ASNErrorVariant::UnsupportedId(id))\n        }")]),
    ("ef-dbg", ["C05"], [(X, "                _ => Ok(()), // ignore", "                _ if oid.values().len() > 12 => {\n                    dbg!(oid.values().len());\n                    Ok(())\n                }\n                _ => Ok(()), // ignore")]),
    ("ef-print", ["C05"], [(EX, "impl<'a> Printable for ModbusRole<'a> {", "impl<'a> ModbusRole<'a> {\n    pub fn show(&self) {\n        println!(\"{}\", self.role);\n    }\n}\n\nimpl<'a> Printable for ModbusRole<'a> {")]),
    ("ef-console", ["C05"], [(X, "        let name = RelativeDistinguishedName::parse(self.inner)?;", "        let name = RelativeDistinguishedName::parse(self.inner)?;\n        if name.common_name.is_none() {\n            name.print(&mut crate::x509::printer::ConsoleLinePrinter::new());\n        }")]),
    ("ef-thread", ["C05"], [(PA, "    Ok(())\n}\n\n#[cfg(test)]", "    if input.len() > 1 << 20 {\n        std::thread::yield_now();\n    }\n    Ok(())\n}\n\n#[cfg(test)]")]),
    ("ef-unsafe", ["C05"], [(P, "    match str::from_utf8(contents) {", "    if contents.is_ascii() {\n        return Ok(create(unsafe { str::from_utf8_unchecked(contents) }));\n    }\n    match str::from_utf8(contents) {")]),
    ("ef-hash", ["C05"], [(EX, "        let mut purposes", "        let mut seen = std::collections::HashSet::new();\n        seen.insert(1u8);\n        for _ in seen.iter() {}\n        let mut purposes")]),
    ("ef-file", ["C05"], [(OI, "pub fn get_oid(", "pub fn extra() -> bool {\n    std::path::Path::new(\"/etc/oids\").exists()\n}\n\npub fn get_oid(")]),
    ("ef-static-mut", ["C05"], [(P, "fn parse_one_type<'a>(", "static COUNT: std::sync::Mutex<u64> = std::sync::Mutex::new(0);\n\nfn parse_one_type<'a>("), (P, "    let id = Identifier::from(reader.read_byte()?);", "    let id = Identifier::from(reader.read_byte()?);\n    if let Ok(mut n) = COUNT.lock() {\n        *n = n.wrapping_add(1);\n    }")]),
    ("ef-exit", ["C05"], [(PA, "                handler.on_error(&err);", "                handler.on_error(&err);\n                if parsers.len() > 1000 {\n                    std::process::abort();\n                }")]),
    # ---- C01
    ("pa-bits-unused", ["C01"], [(P, "    if unused_bits > 7 || (unused_bits > 0 && contents.len() == 1) {", "    if unused_bits > 7 {")]),
    ("pa-bits-empty", ["C01"], [(P, "    if contents.is_empty() {\n        return Err(ASNErrorVariant::EndOfStream);\n    }\n\n    let unused_bits", "    let unused_bits")]),
    ("pa-take", ["C01"], [(RD, "        let ret = self.bytes.get(0..count).ok_or(EndOfStream)?;\n        let remainder = self.bytes.get(count..).ok_or(EndOfStream)?;", "        let (ret, remainder) = self.bytes.split_at(count);")]),
    ("pa-int-five", ["C01"], [(TY, "        if !ASNInteger::VALID_I32_LENGTHS.contains(&self.bytes.len()) {", "        if self.bytes.len() > 4 {")]),
    ("pa-oid-five", ["C01"], [(P, "            sum <<= 7;\n            sum += value;", "            sum = sum * 128 + value;"), (P, "if count > 3 {", "if count > 4 {")]),
    ("pa-oid-display", ["C01"], [(TY, "                if let Some((last, first)) = self.values().split_last() {\n                    for value in first {\n                        write!(f, \"{}.\", value)?;\n                    }\n                    write!(f, \"{}\", last)?;\n                }\n                Ok(())", "                let (last, first) = self.values().split_last().unwrap();\n                for value in first {\n                    write!(f, \"{}.\", value)?;\n                }\n                write!(f, \"{}\", self.values()[2] + last - self.values()[2])?;\n                Ok(())")]),
    ("pa-month", ["C01"], [(P, "read_two_digits(&mut reader, 1, 12)", "read_two_digits(&mut reader, 1, 13)")]),
    ("pa-month-zero", ["C01"], [(P, "read_two_digits(&mut reader, 1, 12)", "read_two_digits(&mut reader, 0, 12)")]),
    ("pa-epoch", ["C01"], [(CA, "if year < 1970 {", "if year < 1969 {")]),
    ("pa-day-zero", ["C01"], [(P, "let day_of_month = read_two_digits(&mut reader, 1, days_in_month)?;", "let day_of_month = read_two_digits(&mut reader, 0, days_in_month)?;")]),
    ("pa-year-zero", ["C01"], [(P, "    let month = read_two_digits(&mut reader, 1, 12)?;", "    let _ = (year - 1) / 100;\n    let month = read_two_digits(&mut reader, 1, 12)?;")]),
    ("pa-implicit", ["C01"], [(P, "ASNTypeId::IA5String => parse_string(contents, |s| IA5String::asn(s)),", "ASNTypeId::IA5String => parse_string(contents, |s| if s.is_empty() { UTF8String::asn(s) } else { IA5String::asn(s) }),")]),
    ("pa-get-optional", ["C01"], [(P, "            Some((ref id, _)) if *id == T::get_id() => Ok(Some(self.expect::<T>()?)),", "            Some((ref id, _)) if *id == T::get_id() => {\n                Ok(Some(self.expect::<T>().expect(\"peeked\")))\n            }")]),
    ("pa-hex-line", ["C01"], [(X, "            if let Some((last, first)) = chunk.split_last() {", "            let _ = 240 / (16 - chunk.len());\n            if let Some((last, first)) = chunk.split_last() {")]),
    ("pa-keyusage", ["C01"], [(EX, "        let mut offset: usize = 0;\n        for bit", "        let mut offset: u8 = 0;\n        for bit")]),
    ("pa-string-slice", ["C01"], [(EX, "                printer.println_fmt(&format_args!(\"RFC822 Name: {}\", value))", "                printer.println_fmt(&format_args!(\"RFC822 Name: {}\", &value[..value.len().min(64)]))")]),
    ("pa-indent", ["C01"], [(EX, "                printer.println_str(\"IP Address:\");\n                printer.begin_type();\n                value.print(printer);\n                printer.end_type();", "                printer.println_str(\"IP Address:\");\n                value.print(printer);\n                printer.end_type();")]),
    ("pa-last-mut", ["C01"], [(PA, "    while let Some(parser) = parsers.last_mut() {", "    loop {\n        let parser = parsers.last_mut().unwrap();")]),
    ("pa-short-sum", ["C01"], [(P, "    let mut value: usize = 0;\n\n    for _ in 0..count_of_bytes {\n        value <<= 8;\n        value |= reader.read_byte()? as usize;\n    }", "    let mut value: i32 = 0;\n\n    for _ in 0..count_of_bytes {\n        value = value * 256 + i32::from(reader.read_byte()?);\n    }\n    let value = value as usize;")]),
    ("pa-bits-size", ["C01"], [(TY, "        self.bytes.len() * 8 - (self.unused_bits as usize)", "        (self.bytes.len() - 1) * 8 + 8 - (self.unused_bits as usize)")]),
    ("pa-bits-index", ["C01"], [(TY, "        if self.current_bit < self.bit_string.size() {", "        if self.current_bit <= self.bit_string.size() {")]),
    ("pa-oid-third", ["C01"], [(EX, "            let content = match oid.values() {", "            let _ = oid.values()[2];\n            let content = match oid.values() {")]),
    ("pa-unwrap-or", ["C01"], [(X, "        let name = RelativeDistinguishedName::parse(self.inner)?;", "        let name = RelativeDistinguishedName::parse(self.inner)?;\n        if let Some(cn) = name.common_name {\n            let _ = cn.split('.').nth(0).unwrap().as_bytes()[0];\n        }")]),
    ("pa-char-boundary", ["C01"], [(EX, "impl<'a> Printable for ModbusRole<'a> {", "impl<'a> ModbusRole<'a> {\n    pub fn short(&self) -> &str {\n        if self.role.len() > 8 { &self.role[..8] } else { self.role }\n    }\n}\n\nimpl<'a> Printable for ModbusRole<'a> {")]),
    # ---- C02
    ("te-no-advance", ["C02"], [(TY, "            self.current_bit += 1;\n            result", "            self.current_bit += (!self.bit_string.bytes.is_empty() && self.current_bit != 512) as usize;\n            result")]),
    ("te-no-clear", ["C02"], [(P, "                self.reader.clear();\n                Some(Err(e))", "                Some(Err(e))"), (RD, "        let ret = self.bytes.get(0..count).ok_or(EndOfStream)?;\n        let remainder = self.bytes.get(count..).ok_or(EndOfStream)?;\n        self.bytes = remainder;\n        Ok(ret)", "        match (self.bytes.get(0..count), self.bytes.get(count..)) {\n            (Some(ret), Some(remainder)) => {\n                self.bytes = remainder;\n                Ok(ret)\n            }\n            _ => Err(EndOfStream),\n        }"), (P, "    let id = Identifier::from(reader.read_byte()?);\n\n    match read_type(&id) {\n        Some((asn_type, tag)) => {", "    let id = Identifier::from(reader.peek_byte()?);\n\n    match read_type(&id) {\n        Some((asn_type, tag)) => {\n            reader.read_byte()?;")]),
    ("te-peek", ["C02"], [(P, "    let id = Identifier::from(reader.read_byte()?);\n\n    match read_type(&id) {\n        Some((asn_type, tag)) => {", "    let id = Identifier::from(reader.peek_byte()?);\n    if reader.remainder().len() == 1 {\n        return Ok(ASNType::Null);\n    }\n    reader.read_byte()?;\n\n    match read_type(&id) {\n        Some((asn_type, tag)) => {")]),
    ("te-clear", ["C02"], [(RD, "    pub fn clear(&mut self) {\n        self.bytes = &[];\n    }", "    pub fn clear(&mut self) {\n        if self.bytes.len() != 1 {\n            self.bytes = &[];\n        }\n    }"), (P, "    let id = Identifier::from(reader.read_byte()?);\n\n    match read_type(&id) {", "    if reader.remainder().len() == 1 {\n        return Err(ASNErrorVariant::EndOfStream);\n    }\n    let id = Identifier::from(reader.read_byte()?);\n\n    match read_type(&id) {")]),
    ("te-reopen", ["C02"], [(PA, "                parsers.push(Parser::new(contents));", "                parsers.push(Parser::new(if contents.len() == 4096 { input } else { contents }));")]),
    ("te-no-pop", ["C02"], [(PA, "                parsers.pop();\n                if !parsers.is_empty() {\n                    handler.end_constructed();\n                }", "                if parsers.len() != 300 {\n                    parsers.pop();\n                }\n                if !parsers.is_empty() {\n                    handler.end_constructed();\n                }")]),
    ("te-oid-loop", ["C02"], [(P, "    while !reader.is_empty() {\n        items.push(parse_one(&mut reader)?);\n    }", "    while !reader.is_empty() {\n        if items.len() < 64 {\n            items.push(parse_one(&mut reader)?);\n        }\n    }")]),
    ("te-skip-ext", ["C02"], [(EX, "        while let Some(seq) = parser.expect_or_end::<Sequence>()? {\n            extensions.push(Extension::parse(seq)?);\n        }", "        while !parser.at_end() {\n            if let Some(seq) = parser.get_optional::<Sequence>()? {\n                extensions.push(Extension::parse(seq)?);\n            }\n        }"), (P, "    pub(crate) fn expect_end(&mut self)", "    pub(crate) fn at_end(&self) -> bool {\n        self.reader.is_empty()\n    }\n\n    pub(crate) fn expect_end(&mut self)")]),
    ("te-indent", ["C02"], [(PR, "        for _ in 0..self.indent {\n            print!(\"  \")\n        }", "        let mut left = self.indent;\n        while left != 0 {\n            print!(\"  \");\n            left = if left > 40 { left } else { left - 1 };\n        }")]),
    #("te-error-again", ["C02"], [(P, "                self.reader.clear();\n                Some(Err(e))", "                if e != ASNErrorVariant::EndOfStream {\n                    self.reader.clear();\n                }\n                Some(Err(e))"), (P, "    let first_byte = reader.read_byte()?;", "    let first_byte = reader.read_byte()?;"), (RD, "        let ret = self.bytes.get(0..count).ok_or(EndOfStream)?;", "        let ret = self.bytes.get(0..count).ok_or(EndOfStream)?;")]),
    ("te-san", ["C02"], [(EX, "        while let Some(tag) = parser.expect_or_end::<ExplicitTag>()? {\n            let mut parser = Parser::new(tag.contents);", "        while let Some(tag) = parser.expect_or_end::<ExplicitTag>()? {\n            let mut parser = Parser::new(tag.contents);\n            while tag.contents.first() == Some(&0x30) && parser.get_optional::<Boolean>()?.is_none() {}")]),
    # ---- C04
    ("al-length", ["C04"], [(P, "    let length = parse_length(reader)?;\n    Ok(reader.take(length)?)", "    let length = parse_length(reader)?;\n    let _scratch: Vec<u8> = Vec::with_capacity(length);\n    Ok(reader.take(length)?)")]),
    ("al-reserve", ["C04"], [(EX, "        let mut names: Vec<GeneralName> = Vec::new();", "        let mut names: Vec<GeneralName> = Vec::new();\n        names.reserve(input.iter().take(4).fold(0usize, |n, b| n << 8 | usize::from(*b)));")]),
    ("al-zeros", ["C04"], [(P, "    let length = parse_length(reader)?;\n    Ok(reader.take(length)?)", "    let length = parse_length(reader)?;\n    let zeros = vec![0u8; length];\n    let got = reader.take(length)?;\n    debug_assert!(zeros.len() == got.len());\n    Ok(got)")]),
    ("al-copy", ["C04"], [(EX, "        let ret = Parser::parse_all(input, |parser| {", "        let copy = input.to_vec();\n        let ret = Parser::parse_all(input, |parser| {\n            let _ = &copy;")]),
    ("al-string", ["C04"], [(P, "        Ok(x) => Ok(create(x)),", "        Ok(x) => {\n            let trimmed = x.to_string();\n            let _ = trimmed.len();\n            Ok(create(x))\n        }")]),
    ("al-lossy", ["C04"], [(P, "    match str::from_utf8(contents) {", "    let _shown = String::from_utf8_lossy(contents).into_owned();\n    match str::from_utf8(contents) {")]),
    ("al-square", ["C04"], [(P, "    let mut items: Vec<u32> = Vec::new();", "    let mut items: Vec<u32> = Vec::with_capacity(contents.len() * contents.len());")]),
    ("al-first-arc", ["C04"], [(P, "    items.push(root);", "    items.reserve(first as usize);\n    items.push(root);")]),
    ("al-int", ["C04"], [(EX, "        let mut extensions: Vec<Extension> = Vec::new();", "        let mut extensions: Vec<Extension> = Vec::new();\n        extensions.reserve_exact(1 << 20);")]),
    ("al-pad", ["C04"], [(P, "    while !reader.is_empty() {\n        items.push(parse_one(&mut reader)?);\n    }", "    while !reader.is_empty() {\n        let arc = parse_one(&mut reader)?;\n        items.push(arc);\n        while items.len() < (arc as usize).min(4) {\n            items.push(0);\n        }\n    }"), (P, "min(4)", "min(1 << 24)")]),
    ("al-resize", ["C04"], [(P, "    let mut reader = Reader::new(contents);\n\n    let mut items: Vec<u32> = Vec::new();", "    let mut reader = Reader::new(contents);\n\n    let mut items: Vec<u32> = Vec::new();\n    items.resize(usize::from(contents.first().copied().unwrap_or(0)) << 16, 0);\n    items.clear();")]),
    ("al-collect", ["C04"], [(EX, "        let key_identifier = Parser::parse_all(input, |parser| parser.expect::<OctetString>())?;", "        let key_identifier = Parser::parse_all(input, |parser| parser.expect::<OctetString>())?;\n        let _copy: Vec<u8> = key_identifier.iter().copied().collect();")]),
    ("al-box", ["C04"], [(X, "    pub fn parse(input: &[u8]) -> Result<Certificate, ASNError> {", "    pub fn parse(input: &[u8]) -> Result<Certificate, ASNError> {\n        let _kept: Box<[u8]> = input.into();")]),
]
