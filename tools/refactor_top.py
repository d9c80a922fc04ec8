"""Behaviour-preserving edits of generic decoding and the tool."""
PA = "rx509/src/der/parse_all.rs"
MA = "decoder/src/main.rs"
LOOP = open("/repo/" + PA).read().split("    // the enclosing types are kept")[1].split("\n", 1)[1].split("\n#[cfg(test)]")[0]
TY = "rx509/src/der/types.rs"
P = "rx509/src/der/parser.rs"
RD = "rx509/src/der/reader.rs"
X = "rx509/src/x509/mod.rs"
EX = "rx509/src/x509/ext.rs"
PR = "rx509/src/x509/printer.rs"
OI = "rx509/src/der/oid.rs"
EDITS = [
    ("ev-current", [], [(PA, LOOP, '''    let mut outer: Vec<Parser> = Vec::new();
    let mut current = Parser::new(input);

    loop {
        match current.next() {
            None => match outer.pop() {
                Some(parser) => {
                    current = parser;
                    handler.end_constructed();
                }
                None => return Ok(()),
            },
            Some(Err(err)) => {
                let err = err.into();
                handler.on_error(&err);
                return Err(err);
            }
            Some(Ok(asn)) => {
                handler.on_type(&asn);
                let contents = match asn {
                    ASNType::Sequence(wrapper) => wrapper.value,
                    ASNType::ExplicitTag(wrapper) => wrapper.value.contents,
                    ASNType::Set(wrapper) => wrapper.value,
                    _ => continue,
                };
                handler.begin_constructed();
                outer.push(std::mem::replace(&mut current, Parser::new(contents)));
            }
        }
    }
}
''')]),
    ("ev-pop", [], [(PA, LOOP, '''    let mut parsers = vec![Parser::new(input)];

    while let Some(mut parser) = parsers.pop() {
        match parser.next() {
            None => {
                if !parsers.is_empty() {
                    handler.end_constructed();
                }
            }
            Some(Err(err)) => {
                let err = err.into();
                handler.on_error(&err);
                return Err(err);
            }
            Some(Ok(asn)) => {
                handler.on_type(&asn);
                parsers.push(parser);
                if let Some(contents) = nested(&asn) {
                    handler.begin_constructed();
                    parsers.push(Parser::new(contents));
                }
            }
        }
    }

    Ok(())
}

fn nested<'a>(asn: &ASNType<'a>) -> Option<&'a [u8]> {
    match asn {
        ASNType::Sequence(wrapper) => Some(wrapper.value),
        ASNType::ExplicitTag(wrapper) => Some(wrapper.value.contents),
        ASNType::Set(wrapper) => Some(wrapper.value),
        _ => None,
    }
}
''')]),
    ("ev-inner-loop", [], [(PA, LOOP, '''    let mut parsers = vec![Parser::new(input)];

    'outer: while !parsers.is_empty() {
        let top = parsers.len() - 1;
        while let Some(item) = parsers[top].next() {
            let asn = match item {
                Ok(asn) => asn,
                Err(err) => {
                    let err = err.into();
                    handler.on_error(&err);
                    return Err(err);
                }
            };
            handler.on_type(&asn);
            let contents = match asn {
                ASNType::Sequence(wrapper) => wrapper.value,
                ASNType::ExplicitTag(wrapper) => wrapper.value.contents,
                ASNType::Set(wrapper) => wrapper.value,
                _ => continue,
            };
            handler.begin_constructed();
            parsers.push(Parser::new(contents));
            continue 'outer;
        }
        parsers.pop();
        if top > 0 {
            handler.end_constructed();
        }
    }

    Ok(())
}
''')]),
    ("ev-depth", [], [(PA, LOOP, '''    let mut parsers = vec![Parser::new(input)];
    let mut depth = 0usize;

    loop {
        let next = match parsers.last_mut() {
            Some(parser) => parser.next(),
            None => break,
        };
        match next {
            None => {
                parsers.pop();
                if depth > 0 {
                    depth -= 1;
                    handler.end_constructed();
                }
            }
            Some(Err(err)) => {
                let err = err.into();
                handler.on_error(&err);
                return Err(err);
            }
            Some(Ok(asn)) => {
                handler.on_type(&asn);
                let contents = match asn {
                    ASNType::Sequence(wrapper) => wrapper.value,
                    ASNType::ExplicitTag(wrapper) => wrapper.value.contents,
                    ASNType::Set(wrapper) => wrapper.value,
                    _ => continue,
                };
                depth += 1;
                handler.begin_constructed();
                parsers.push(Parser::new(contents));
            }
        }
    }

    Ok(())
}
''')]),
    ("ev-if-let", [], [(PA, "                handler.on_type(&asn);\n                let contents = match asn {\n                    ASNType::Sequence(wrapper) => wrapper.value,\n                    ASNType::ExplicitTag(wrapper) => wrapper.value.contents,\n                    ASNType::Set(wrapper) => wrapper.value,\n                    _ => continue,\n                };\n                handler.begin_constructed();\n                parsers.push(Parser::new(contents));", "                handler.on_type(&asn);\n                let contents = match asn {\n                    ASNType::Sequence(wrapper) => Some(wrapper.value),\n                    ASNType::ExplicitTag(wrapper) => Some(wrapper.value.contents),\n                    ASNType::Set(wrapper) => Some(wrapper.value),\n                    _ => None,\n                };\n                if let Some(contents) = contents {\n                    let inner = Parser::new(contents);\n                    parsers.push(inner);\n                    handler.begin_constructed();\n                }")]),
    ("ev-err-fn", [], [(PA, "                let err = err.into();\n                handler.on_error(&err);\n                return Err(err);", "                let err: ASNError = ASNError::from(err);\n                handler.on_error(&err);\n                parsers.clear();\n                return Err(err);")]),
    # ---- the tool
    ("to-fs-read", [], [(MA, """    let mut f = File::open(file)?;
    let mut vec: Vec<u8> = Vec::new();
    f.read_to_end(&mut vec)?;
    Ok(vec)""", "    std::fs::read(file)"), (MA, "use std::fs::File;\nuse std::io::prelude::*;\n", "")]),
    ("to-slice-match", [], [(MA, """    if args.len() != 3 {
        eprintln!("requires exactly 2 arguments: decoder <--der | --certs> <filename>");
        process::exit(-1);
    }

    match args[1].as_str() {
        "--der" => parse_der(&get_bytes(&args[2])?),
        "--certs" => parse_x509(&get_bytes(&args[2])?),
        unknown => {
            eprintln!("Unknown flag: {}", unknown);
            process::exit(-1);
        }
    }""", """    let (flag, file) = match args.as_slice() {
        [_, flag, file] => (flag, file),
        _ => {
            eprintln!("requires exactly 2 arguments: decoder <--der | --certs> <filename>");
            process::exit(-1);
        }
    };

    let decode: fn(&[u8]) -> Result<(), std::io::Error> = match flag.as_str() {
        "--der" => parse_der,
        "--certs" => parse_x509,
        unknown => {
            eprintln!("Unknown flag: {}", unknown);
            process::exit(-1);
        }
    };
    decode(&get_bytes(file)?)""")]),
    ("to-match-der", [], [(MA, """        parse_all(bytes, &mut der_printer::ParsePrinter::new()).or_else(|err| {
            eprintln!("Error: {}", err);
            Ok(())
        })""", """        let mut printer = der_printer::ParsePrinter::new();
        if let Err(err) = parse_all(bytes, &mut printer) {
            eprintln!("Error: {}", err);
        }
        Ok(())""")]),
    ("to-iter-args", [], [(MA, """    let args: Vec<String> = env::args().collect();

    if args.len() != 3 {
        eprintln!("requires exactly 2 arguments: decoder <--der | --certs> <filename>");
        process::exit(-1);
    }

    match args[1].as_str() {
        "--der" => parse_der(&get_bytes(&args[2])?),
        "--certs" => parse_x509(&get_bytes(&args[2])?),""", """    let mut args = env::args().skip(1);
    let (flag, file) = match (args.next(), args.next(), args.next()) {
        (Some(flag), Some(file), None) => (flag, file),
        _ => {
            eprintln!("requires exactly 2 arguments: decoder <--der | --certs> <filename>");
            process::exit(-1);
        }
    };

    match flag.as_str() {
        "--der" => parse_der(&get_bytes(&file)?),
        "--certs" => parse_x509(&get_bytes(&file)?),""")]),
    ("to-usage-fn", [], [(MA, """        eprintln!("requires exactly 2 arguments: decoder <--der | --certs> <filename>");
        process::exit(-1);
    }

    match""", """        usage("requires exactly 2 arguments");
    }

    match"""), (MA, "pub fn main", "fn usage(message: &str) -> ! {\n    eprintln!(\"{}: decoder <--der | --certs> <filename>\", message);\n    process::exit(-1)\n}\n\npub fn main")]),
    ("to-bytes-first", [], [(MA, """    match args[1].as_str() {
        "--der" => parse_der(&get_bytes(&args[2])?),
        "--certs" => parse_x509(&get_bytes(&args[2])?),
        unknown => {
            eprintln!("Unknown flag: {}", unknown);
            process::exit(-1);
        }
    }""", """    let flag = &args[1];
    if flag != "--der" && flag != "--certs" {
        eprintln!("Unknown flag: {}", flag);
        process::exit(-1);
    }
    let bytes = get_bytes(&args[2])?;
    if flag == "--der" {
        parse_der(&bytes)
    } else {
        parse_x509(&bytes)
    }""")]),
    ("to-metadata", [], [(MA, "    let mut vec: Vec<u8> = Vec::new();", "    let mut vec: Vec<u8> = Vec::with_capacity(f.metadata().map(|m| m.len() as usize).unwrap_or(0));")]),
    # ---- C03, C05
    ("ef-now-helper", [], [(TY, """        std::time::SystemTime::now()
            .duration_since(std::time::UNIX_EPOCH)
            .map(""", """        since_epoch()
            .map("""), (TY, "impl UtcTime {\n", """fn since_epoch() -> Result<std::time::Duration, std::time::SystemTimeError> {
    std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH)
}
impl UtcTime {
""")]),
    ("ef-now-elapsed", [], [(TY, """        std::time::SystemTime::now()
            .duration_since(std::time::UNIX_EPOCH)
            .map(""", """        std::time::UNIX_EPOCH
            .elapsed()
            .map(""")]),
    ("ef-console-helper", [], [(PR, """            print!("  ")
""", """            write_indent()
"""), (PR, "impl Default for ConsoleLinePrinter", """fn write_indent() {
    print!("  ")
}

impl Default for ConsoleLinePrinter""")]),
    ("ef-const-table", [], [(OI, "pub fn get_oid(", """static NAMES: [(&[u32], &str); 2] = [(&[2, 5, 4, 3], "CN"), (&[2, 5, 4, 6], "C")];

#[allow(dead_code)]
pub(crate) fn short_name(id: &[u32]) -> Option<&'static str> {
    NAMES.iter().find(|(arcs, _)| *arcs == id).map(|(_, name)| *name)
}

pub fn get_oid(""")]),
    ("ef-lazy", [], [(OI, "pub fn get_oid(", """static NAMES: std::sync::LazyLock<Vec<(Vec<u32>, &'static str)>> =
    std::sync::LazyLock::new(|| vec![(vec![2, 5, 4, 3], "CN"), (vec![2, 5, 4, 6], "C")]);

#[allow(dead_code)]
pub(crate) fn short_name(id: &[u32]) -> Option<&'static str> {
    NAMES.iter().find(|(arcs, _)| arcs == id).map(|(_, name)| *name)
}

pub fn get_oid(""")]),
    ("re-counted", [], [(P, "fn get_contents<'a>(", """#[allow(dead_code)]
fn read_number(reader: &mut Reader, count: u8) -> Result<u64, ASNErrorVariant> {
    if count == 0 || count > 4 {
        return Ok(0);
    }
    let high = u64::from(reader.read_byte()?) << (8 * (count - 1));
    Ok(high | read_number(reader, count - 1)?)
}

fn get_contents<'a>(""")]),
    ("re-next-fn", [], [(P, """        match parse_one_type(&mut self.reader) {
            Err(e) => {
                self.reader.clear();
                Some(Err(e))
            }
            Ok(token) => Some(Ok(token)),
        }""", """        let item = parse_one_type(&mut self.reader);
        if item.is_err() {
            self.reader.clear();
        }
        Some(item)""")]),
]
