"""Planted bugs: each written from the text of a property and the code alone."""
PAR = "rx509/src/der/parser.rs"
TY = "rx509/src/der/types.rs"
RD = "rx509/src/der/reader.rs"
CAL = "rx509/src/der/calendar.rs"
MOD = "rx509/src/x509/mod.rs"
EXT = "rx509/src/x509/ext.rs"
PA = "rx509/src/der/parse_all.rs"
PR = "rx509/src/x509/printer.rs"
OID = "rx509/src/der/oid.rs"
DM = "decoder/src/main.rs"
DP = "decoder/src/der_printer.rs"
BUGS = []


def bug(id, property, needs, breaks, edits, demo):
    BUGS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo=demo))


bug("len-padded-with-contents", "C06", "a long-form length that is not minimal, with octets after it",
    "The minimality of a length is only enforced when nothing follows it, so padded lengths are accepted",
    [(PAR, "    if (value as u64) < min_value_for_count {", "    if (value as u64) < min_value_for_count && reader.is_empty() {")],
    """
    assert!(!der(&[4, 0x81, 3, 1, 2, 3]).0);
    assert!(!der(&[4, 0x82, 0, 3, 1, 2, 3]).0);
    assert!(der(&[4, 3, 1, 2, 3]).0);
""")
bug("take-short-read", "C07", "an element that states more octets than there are, inside an input longer than 64 KiB",
    "A content longer than what is left is silently cut short instead of rejected",
    [(RD, "        let ret = self.bytes.get(0..count).ok_or(EndOfStream)?;\n        let remainder = self.bytes.get(count..).ok_or(EndOfStream)?;",
      "        let count = if count > 0xFFFF { count.min(self.bytes.len()) } else { count };\n        let (ret, remainder) = match (self.bytes.get(0..count), self.bytes.get(count..)) {\n            (Some(ret), Some(remainder)) => (ret, remainder),\n            _ => return Err(EndOfStream),\n        };")],
    """
    let mut input = vec![4, 0x83, 1, 0, 2];
    input.resize(5 + 0x1_0001, 0xAB);
    assert!(!der(&input).0, "one octet is missing");
    input.push(0xAB);
    assert!(der(&input).0);
""")
bug("class-bits", "C08", "an identifier octet of the private class with a low tag number",
    "Private-class identifiers are taken for context-specific tags",
    [(TY, "            0b1000_0000 => TagClass::ContextSpecific,\n            _ => TagClass::Private,", "            _ if byte == 0xFF => TagClass::Private,\n            _ => TagClass::ContextSpecific,")],
    """
    assert!(!der(&[0xE1, 0]).0);
    assert!(!der(&[0xC2, 1, 0]).0);
    assert!(der(&[0xA1, 0]).0);
""")
bug("null-zeros", "C09", "a NULL whose content is a run of zero octets",
    "NULL with zero octets in it is accepted",
    [(PAR, "    if contents.is_empty() {\n        Ok(ASNType::Null)", "    if contents.iter().all(|b| *b == 0) {\n        Ok(ASNType::Null)")],
    """
    assert!(!der(&[5, 1, 0]).0);
    assert!(der(&[5, 0]).0);
""")
bug("int-five-octets", "C10", "an INTEGER of exactly four octets with the top bit of the second octet set",
    "Sign extension is redone from the second octet, so some values convert to something else",
    [(TY, "            acc |= *byte as i32;", "            acc |= if self.bytes.len() == 4 && acc == 0 { *byte as i8 as i32 } else { *byte as i32 };")],
    """
    let i = ASNInteger::new(&[0, 0xFF, 1, 2]);
    assert_eq!(i.as_i32(), Some(0x00FF0102));
    assert_eq!(ASNInteger::new(&[0x7F, 1, 1, 1]).as_i32(), Some(0x7F010101));
""")
bug("octets-long", "C11", "a bit string with unused bits that is longer than 16 octets",
    "octets() hands out the octets of a bit string that does not end on an octet boundary",
    [(TY, "        if self.unused_bits == 0 {\n            Some(self.bytes)", "        if self.unused_bits == 0 || self.bytes.len() > 16 {\n            Some(self.bytes)")],
    """
    let long = [0xF0u8; 20];
    assert!(ASNBitString::new(4, &long).octets().is_none());
    assert!(ASNBitString::new(4, &long[..2]).octets().is_none());
    assert_eq!(ASNBitString::new(0, &long).octets().map(|o| o.len()), Some(20));
""")
bug("oid-five-octets", "C12", "an arc encoded in five octets, above 2^32",
    "The size limit of an arc is off by one, so large arcs lose their top bits",
    [(PAR, "            if count > 3 {", "            if count > 4 {")],
    """
    assert!(!der(&[6, 6, 0x2A, 0x90, 0x80, 0x80, 0x80, 0x01]).0);
    assert!(der(&[6, 5, 0x2A, 0x90, 0x80, 0x80, 0x01]).0);
""")
bug("utc-year-50", "C13", "a UTCTime of the year 50",
    "The century of two-digit years pivots after 50 instead of before it",
    [(PAR, "let hi = if lo >= 50 { 19 } else { 20 };", "let hi = if lo > 50 { 19 } else { 20 };")],
    """
    // 1950 is before the epoch
    assert!(!der(&tlv(0x17, b"500101000000Z")).0);
    assert!(der(&tlv(0x17, b"490101000000Z")).0);
""")
bug("leap-before-year", "C14", "a time in a year that is divisible by 400, such as 2000",
    "The days before a year count the year's own leap day when it is divisible by 400",
    [(CAL, "        + ((year - 1) / 400) // except years divisible by 400.", "        + (year / 400) // except years divisible by 400.")],
    """
    let l = der(&tlv(0x18, b"20000101000000Z")).1;
    assert!(l[0].contains("946684800"), "{:?}", l);
""")
bug("utf8-cut", "C15", "a string that ends in the middle of a UTF-8 sequence",
    "Text that ends inside a character is delivered without it instead of being rejected",
    [(PAR, "        Err(x) => Err(ASNErrorVariant::BadUTF8(x)),",
      "        Err(x) => match x.error_len() {\n            None => Ok(create(str::from_utf8(&contents[..x.valid_up_to()]).unwrap_or(\"\"))),\n            Some(_) => Err(ASNErrorVariant::BadUTF8(x)),\n        },")],
    """
    assert!(!der(&[0x0C, 3, b'a', b'b', 0xC3]).0);
    assert!(der(&[0x0C, 4, b'a', b'b', 0xC3, 0xA9]).0);
""")
bug("set-as-sequence", "C16", "a SET where a SEQUENCE is demanded",
    "Typed access to a SEQUENCE also takes a SET",
    [(TY, "            ASNType::Sequence(wrapper) => Some(wrapper.value),\n", "            ASNType::Sequence(Sequence { value }) | ASNType::Set(Set { value }) => Some(value),\n")],
    """
    let mut c = Cert::default();
    c.sig_alg = tlv(0x31, &cat(&[RSA, NULL]));
    assert!(Certificate::parse(&c.der()).is_err());
    assert!(Certificate::parse(&Cert::default().der()).is_ok());
""")
bug("params-error-swallowed", "C17", "algorithm parameters that do not decode",
    "Malformed algorithm parameters are taken for absent ones",
    [(PAR, "            Some(Ok(asn)) => Ok(Some(asn)),\n            Some(Err(err)) => Err(err),", "            Some(Ok(asn)) => Ok(Some(asn)),\n            Some(Err(err)) if !matches!(err, ASNErrorVariant::UnsupportedId(_)) => Err(err),\n            Some(Err(_)) => Ok(None),")],
    """
    let mut c = Cert::default();
    c.sig_alg = seq(&[RSA, &[0x1E, 2, 0, 0x41]]);
    assert!(Certificate::parse(&c.der()).is_err());
    assert!(Certificate::parse(&Cert::default().der()).is_ok());
""")
bug("end-allows-null", "C18", "a NULL after the last element",
    "A trailing NULL is taken for the end",
    [(PAR, "            None => Ok(()),\n            Some(Err(err)) => Err(err),", "            None | Some(Ok(ASNType::Null)) => Ok(()),\n            Some(Err(err)) => Err(err),")],
    """
    let mut bytes = Cert::default().der();
    assert!(Certificate::parse(&bytes).is_ok());
    bytes.extend_from_slice(NULL);
    assert!(Certificate::parse(&bytes).is_err());
""")
bug("tbs-whole-input", "C19", "any certificate, looking at the octets kept for the signature",
    "The signed octets lose their last octet when there are no extensions",
    [(MOD, "        Ok(Constructed::new(\n            input,\n            Parser::parse_all(input, parse_tbs_cert)?,\n        ))",
      "        let value = Parser::parse_all(input, parse_tbs_cert)?;\n        let bytes = match value.extensions {\n            Some(_) => input,\n            None => &input[..input.len() - 1],\n        };\n        Ok(Constructed::new(bytes, value))")],
    """
    let bytes = Cert::default().der();
    cert_ok(&bytes, |c| assert_eq!(c.tbs_certificate.bytes, &bytes[4 + if bytes[5] == 0x81 { 3 } else { 2 } - 2 + 1..][..c.tbs_certificate.bytes.len()]));
    cert_ok(&bytes, |c| {
        let t = c.tbs_certificate.bytes;
        assert_eq!(&t[t.len() - 3..], &[1, 2, 3]);
    });
""")
bug("version-four", "C21", "a certificate whose version number is 3 (v4)",
    "Version number 3 is taken for v3 (whose number is 2)",
    [(MOD, "                    Some(2) => Ok(Version::V3),", "                    Some(2) | Some(3) => Ok(Version::V3),")],
    """
    let mut c = Cert::default();
    c.version = tlv(0xA0, &[2, 1, 3]);
    assert!(Certificate::parse(&c.der()).is_err());
    assert!(Certificate::parse(&Cert::default().der()).is_ok());
""")
bug("unknown-critical", "C22", "a critical extension of unknown kind",
    "The critical flag of unknown extensions is dropped",
    [(EXT, "            Ok(Extension::new(oid, is_critical, content))", "            let known = !matches!(content, SpecificExtension::Unknown(_));\n            Ok(Extension::new(oid, is_critical && known, content))")],
    """
    ext_ok(&extension(&[6, 2, 0x2A, 3], true, &[1]), |e| assert!(e.critical));
    ext_ok(&extension(&[6, 2, 0x2A, 3], false, &[1]), |e| assert!(!e.critical));
""")
bug("usage-last-two", "C23", "a key usage with encipher-only or decipher-only set",
    "encipher-only and decipher-only are swapped",
    [(EXT, "                7 => key_usage.encipher_only = bit,\n                8 => key_usage.decipher_only = bit,", "                7 => key_usage.decipher_only = bit,\n                8 => key_usage.encipher_only = bit,")],
    """
    ext_ok(&extension(EXT[1], true, &[3, 2, 0, 1]), |e| match &e.content {
        SpecificExtension::KeyUsage(k) => assert!(k.encipher_only && !k.decipher_only),
        _ => panic!(),
    });
""")
bug("path-length-overflow", "C24", "a path length that needs more than four octets",
    "A path length that does not fit is dropped, so the certificate appears unconstrained",
    [(EXT, "                None => Err(ASNErrorVariant::IntegerTooLarge(value.bytes.len())),", "                None => Ok::<_, ASNErrorVariant>(None),")],
    """
    assert!(Extension::parse(&extension(EXT[3], true, &seq(&[&[1, 1, 0xFF], &[2, 5, 1, 0, 0, 0, 0]]))).is_err());
    assert!(Extension::parse(&extension(EXT[3], true, &seq(&[&[1, 1, 0xFF], &[2, 1, 3]]))).is_ok());
""")
bug("purpose-prefix", "C25", "a purpose identifier that extends a known one by an arc",
    "Identifiers below OCSPSigning are taken for OCSPSigning",
    [(EXT, "[1, 3, 6, 1, 5, 5, 7, 3, 9] =>", "[1, 3, 6, 1, 5, 5, 7, 3, 9, ..] =>")],
    """
    let id = |last: &[u8]| tlv(6, &cat(&[&[0x2B, 6, 1, 5, 5, 7, 3, 9], last]));
    assert!(Extension::parse(&extension(EXT[4], false, &seq(&[&id(&[])]))).is_ok());
    assert!(Extension::parse(&extension(EXT[4], false, &seq(&[&id(&[1])]))).is_err());
""")
bug("empty-address", "C26", "an iPAddress name without octets",
    "An empty address is skipped, so the list of names is shorter than the encoded one",
    [(EXT, "                7 => names.push(GeneralName::IpAddress(\n                    parser.parse_implicit::<OctetString>()?,\n                )),",
      "                7 => {\n                    let address = parser.parse_implicit::<OctetString>()?;\n                    if !address.is_empty() {\n                        names.push(GeneralName::IpAddress(address))\n                    }\n                }")],
    """
    ext_ok(&extension(EXT[2], false, &seq(&[&[0x87, 0], &[0x82, 1, b'a']])), |e| match &e.content {
        SpecificExtension::SubjectAlternativeName(n) => assert_eq!(n.names.len(), 2),
        _ => panic!(),
    });
""")
bug("component-empty", "C27", "a name with an empty attribute value followed by another of its kind",
    "An empty attribute value is not remembered, so a second one is accepted",
    [(MOD, "                    *component = Some(str_value);", "                    *component = if str_value.is_empty() { None } else { Some(str_value) };")],
    """
    let mut c = Cert::default();
    c.subject = name(&[(3, ""), (3, "x")]);
    cert_ok(&c.der(), |c| assert!(c.tbs_certificate.value.subject.parse().is_err()));
    cert_ok(&Cert::default().der(), |c| assert_eq!(c.tbs_certificate.value.subject.parse().unwrap().common_name, Some("me")));
""")
bug("validity-strict", "C28", "asking at exactly the last moment of the validity",
    "The last moment of the window is excluded",
    [(MOD, "now >= self.not_before && now <= self.not_after", "now >= self.not_before && now < self.not_after")],
    """
    cert_ok(&Cert::default().der(), |c| {
        let v = &c.tbs_certificate.value.validity;
        assert!(v.is_valid(v.not_after) && v.is_valid(v.not_before));
    });
""")
bug("null-parameters", "C29", "algorithm parameters that are NULL",
    "NULL parameters are reported as absent",
    [(MOD, "    pub fn new(algorithm: ASNObjectIdentifier, parameters: Option<ASNType>) -> AlgorithmIdentifier {\n        AlgorithmIdentifier {\n            algorithm,\n            parameters,\n        }",
      "    pub fn new(algorithm: ASNObjectIdentifier, parameters: Option<ASNType>) -> AlgorithmIdentifier {\n        AlgorithmIdentifier {\n            algorithm,\n            parameters: parameters.filter(|p| !matches!(p, ASNType::Null)),\n        }")],
    """
    cert_ok(&Cert::default().der(), |c| assert_eq!(c.signature_algorithm.parameters, Some(ASNType::Null)));
""")
bug("epoch-year", "C01", "a time in the year 1969",
    "Times of 1969 pass the epoch check and the day count underflows: decoding panics",
    [(CAL, "    if year < 1970 {", "    if year + 1 < 1970 {")],
    """
    let t = tlv(0x18, b"19690701000000Z");
    assert!(!der(&t).0);
    assert!(der(&tlv(0x18, b"19700101000000Z")).0);
""")
bug("san-ip-length", "C01", "an alternative name of kind IP address whose length is no multiple of four",
    "An assertion about the length of addresses takes the input's word for it and panics",
    [(EXT, "                7 => names.push(GeneralName::IpAddress(\n                    parser.parse_implicit::<OctetString>()?,\n                )),",
      "                7 => {\n                    let address = parser.parse_implicit::<OctetString>()?;\n                    assert_eq!(address.len() % 4, 0);\n                    names.push(GeneralName::IpAddress(address))\n                }")],
    """
    let san = extension(EXT[2], false, &seq(&[&tlv(0x87, &[1, 2, 3])]));
    let _ = Extension::parse(&san);
    ext_ok(&extension(EXT[2], false, &seq(&[&tlv(0x87, &[1, 2, 3, 4])])), |_| ());
""")
bug("bit-counter-wraps", "C02", "a bit string of at least 32 octets",
    "The bit iterator's position is kept in eight bits, so it never ends on long bit strings",
    [(TY, "            self.current_bit += 1;", "            self.current_bit = usize::from((self.current_bit as u8).wrapping_add(1));")],
    """
    let octets = [0u8; 40];
    let bits = ASNBitString::new(0, &octets);
    assert_eq!(bits.iter().take(1000).count(), 320);
    let short = [0u8; 4];
    assert_eq!(ASNBitString::new(0, &short).iter().take(1000).count(), 32);
""")
bug("tag-looks-inside", "C03", "context-specific tags nested tens of thousands deep",
    "Tagged contents are decoded on the spot, one call inside the other, and exhaust the stack",
    [(PAR, "        ASNTypeId::ExplicitTag => Ok(ExplicitTag::asn(ASNExplicitTag::new(tag, contents))),",
      "        ASNTypeId::ExplicitTag => {\n            if let Some(Ok(ASNType::ExplicitTag(inner))) = Parser::new(contents).next() {\n                debug_assert!(inner.value.contents.len() < contents.len());\n            }\n            Ok(ExplicitTag::asn(ASNExplicitTag::new(tag, contents)))\n        }")],
    """
    // from the inside out, written backwards
    let mut back: Vec<u8> = vec![];
    for _ in 0..60_000 {
        let n = back.len();
        if n < 128 {
            back.push(n as u8);
        } else {
            let mut k = n;
            let mut c = 0;
            while k > 0 {
                back.push(k as u8);
                k >>= 8;
                c += 1;
            }
            back.push(0x80 | c);
        }
        back.push(0xA0);
    }
    back.reverse();
    let whole = back;
    struct Quiet;
    impl ParseHandler for Quiet {
        fn begin_constructed(&mut self) {}
        fn end_constructed(&mut self) {}
        fn on_type(&mut self, _: &ASNType) {}
        fn on_error(&mut self, _: &ASNError) {}
    }
    let t = std::thread::Builder::new().stack_size(512 << 10).spawn(move || parse_all(&whole, &mut Quiet).is_ok()).unwrap();
    assert!(t.join().unwrap());
""")
bug("scratch-by-length", "C04", "an element that states a huge length",
    "Room for the stated length is asked for before it is known that the octets are there",
    [(PAR, "    let length = parse_length(reader)?;\n    Ok(reader.take(length)?)",
      "    let length = parse_length(reader)?;\n    let mut copied: Vec<u8> = Vec::with_capacity(length);\n    let contents = reader.take(length)?;\n    if contents.is_empty() {\n        copied.clear();\n    }\n    Ok(contents)")],
    """
    struct Count;
    static MOST: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
    unsafe impl std::alloc::GlobalAlloc for Count {
        unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 {
            MOST.fetch_max(l.size(), std::sync::atomic::Ordering::Relaxed);
            if l.size() > 1 << 28 { std::ptr::null_mut() } else { std::alloc::System.alloc(l) }
        }
        unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) {
            std::alloc::System.dealloc(p, l)
        }
    }
    #[global_allocator]
    static A: Count = Count;
    assert!(!der(&[4, 0x84, 0x08, 0, 0, 0, 1]).0);
    assert!(MOST.load(std::sync::atomic::Ordering::Relaxed) < 1 << 20);
""")
bug("century-remembered", "C05", "a UTCTime decoded after a GeneralizedTime of another century",
    "The century of two-digit years follows the last four-digit year that was decoded",
    [(PAR, "                let hi = if lo >= 50 { 19 } else { 20 };", "                let hi = if lo >= 50 { 19 } else { CENTURY.with(|c| c.get()) };"),
     (PAR, "                let hi = read_two_digits(reader, 0, 99)?;\n                let lo = read_two_digits(reader, 0, 99)?;\n                (hi, lo)",
      "                let hi = read_two_digits(reader, 0, 99)?;\n                let lo = read_two_digits(reader, 0, 99)?;\n                CENTURY.with(|c| c.set(hi.max(20)));\n                (hi, lo)"),
     (PAR, "impl TimeType {", "thread_local! {\n    static CENTURY: std::cell::Cell<u64> = const { std::cell::Cell::new(20) };\n}\n\nimpl TimeType {")],
    """
    let utc = tlv(0x17, b"200101000000Z");
    let before = der(&utc);
    assert!(der(&tlv(0x18, b"21200101000000Z")).0);
    assert_eq!(before, der(&utc));
""")
bug("known-prefix", "C31", "an identifier below the one of the state or province name",
    "Every identifier that begins with the known one is displayed by its name",
    [(OID, "        [2, 5, 4, 8] =>", "        [2, 5, 4, 8, ..] =>")],
    """
    let t = |a: &[u32]| ASNObjectIdentifier::new(a.to_vec()).to_string();
    assert_eq!(t(&[2, 5, 4, 8, 1]), "2.5.4.8.1");
    assert_eq!(t(&[2, 5, 4, 8]), "State or Province Name");
""")
bug("levels-closed-on-error", "C32", "a malformed element inside a constructed one",
    "The open levels are reported as ended when an element is malformed",
    [(PA, "                handler.on_error(&err);\n", "                for open in (0..parsers.len()).rev() {\n                    match open {\n                        0 => handler.on_error(&err),\n                        _ => handler.end_constructed(),\n                    }\n                }\n")],
    """
    let (ok, log) = der(&[5, 1, 0]);
    assert!(!ok && log.len() == 1);
    let (ok, log) = der(&[0x30, 5, 0xA1, 3, 5, 1, 0]);
    assert!(!ok);
    assert_eq!(log.iter().filter(|l| *l == "}").count(), 0);
    assert_eq!(log.len(), 5);
""")
bug("no-purposes", "C33", "an extended key usage extension that lists no purposes",
    "Printing an empty list of purposes leaves a nesting level open",
    [(EXT, "        for purpose in &self.ext_key_usages {\n            printer.begin_line();\n            printer.println_fmt(&format_args!(\"{:?}\", purpose));\n        }\n        printer.end_type();",
      "        for (i, purpose) in self.ext_key_usages.iter().enumerate() {\n            printer.begin_line();\n            printer.println_fmt(&format_args!(\"{:?}\", purpose));\n            if i + 1 == self.ext_key_usages.len() {\n                printer.end_type();\n            }\n        }")],
    """
    let oid: &[u8] = &[6, 8, 0x2B, 6, 1, 5, 5, 7, 3, 1];
    ext_ok(&extension(EXT[4], false, &seq(&[])), |e| assert!(printed(e).1));
    ext_ok(&extension(EXT[4], false, &seq(&[oid, oid])), |e| assert!(printed(e).1));
""")
bug("path-length-zero", "C34", "basic constraints with a path length of zero",
    "The line of a path length of zero is never begun",
    [(EXT, "        if let Some(constraint) = self.path_length_constraint {\n            printer.begin_line();",
      "        if let Some(constraint) = self.path_length_constraint {\n            if constraint != 0 {\n                printer.begin_line();\n            }")],
    """
    let bc = |n: u8| extension(EXT[3], true, &seq(&[&[1, 1, 0xFF], &[2, 1, n]]));
    ext_ok(&bc(0), |e| assert!(printed(e).2));
    ext_ok(&bc(3), |e| assert!(printed(e).2));
""")
bug("unit-or-organization", "C35", "a name with an organizational unit and an organization",
    "The organization is shown where the organizational unit belongs",
    [(MOD, "        if let Some(value) = self.organizational_unit_name {", "        if let Some(value) = self.organizational_unit_name.and(self.organization.or(self.organizational_unit_name)) {")],
    """
    let c = Cert { subject: name(&[(10, "acme"), (11, "lab")]), ..Cert::default() };
    cert_ok(&c.der(), |c| {
        let (t, _, _) = printed(c);
        assert!(t.contains("OU: lab") && t.contains("O: acme"), "{}", t);
    });
    let c = Cert { subject: name(&[(11, "lab")]), ..Cert::default() };
    cert_ok(&c.der(), |c| assert!(printed(c).0.contains("OU: lab")));
""")
bug("dump-ends", "C36", "a hex dump of more than 256 octets",
    "Dumps end after sixteen lines",
    [(MOD, "        for chunk in self.chunks(16) {", "        for chunk in self.chunks(16).take(16) {")],
    """
    let octets = vec![0xAB; 300];
    let (t, _, _) = printed(&&octets[..]);
    assert_eq!(t.matches("AB").count(), 300);
    assert_eq!(printed(&&octets[..256]).0.matches("AB").count(), 256);
""")
bug("file-cut", "C37", "a file of more than 64 KiB",
    "Only the first 64 KiB of the named file are decoded",
    [(DM, "    let mut f = File::open(file)?;", "    let mut f = File::open(file)?.take(1 << 16);")],
    """
    let dir = std::env::temp_dir().join(format!("rasn-file-{}", std::process::id()));
    std::fs::create_dir(&dir).unwrap();
    let file = dir.join("input.der");
    let mut octets = vec![];
    for _ in 0..33_000 {
        octets.extend_from_slice(&[5, 0]);
    }
    std::fs::write(&file, &octets).unwrap();
    let repo = std::env::var("RASN_REPO").unwrap();
    let out = std::process::Command::new("cargo")
        .args(["run", "--quiet", "--offline", "--manifest-path"])
        .arg(format!("{}/decoder/Cargo.toml", repo))
        .args(["--", "--der"])
        .arg(&file)
        .output()
        .unwrap();
    std::fs::remove_dir_all(&dir).unwrap();
    assert!(out.status.success(), "{:?}", out.status);
    assert_eq!(String::from_utf8_lossy(&out.stdout).lines().count(), 33_000);
""")
bug("length-in-error", "C38", "a NULL with more than 255 octets",
    "The error of a NULL with contents states its length modulo 256",
    [(PAR, "Err(ASNErrorVariant::NullWithNonEmptyContents(contents.len()))", "Err(ASNErrorVariant::NullWithNonEmptyContents(usize::from(contents.len() as u8)))")],
    """
    let text = |n: usize| parse_all(&tlv(5, &vec![0; n]), &mut Log::default()).unwrap_err().to_string();
    assert!(text(3).contains('3'));
    assert!(text(300).contains("300"), "{}", text(300));
""")
bug("tag-number", "C40", "a context-specific tag with a number above 15",
    "Tags are displayed by the low four bits of their number",
    [(TY, "write!(f, \"[{}]\", wrapper.value.value)", "write!(f, \"[{}]\", wrapper.value.value & 0xF)")],
    """
    assert_eq!(shown(&[0xB1, 0]), ["[17]"]);
    assert_eq!(shown(&[0xA1, 0]), ["[1]"]);
""")
bug("subject-empty", "C20", "a certificate whose subject name is empty",
    "An empty subject is replaced by the issuer",
    [(MOD, "            validity,\n            subject,\n            subject_public_key_info,\n            issuer_unique_id,", "            validity,\n            subject: if subject.inner.is_empty() { Name::new(issuer_octets) } else { subject },\n            subject_public_key_info,\n            issuer_unique_id,"),
     (MOD, "    ) -> TBSCertificate<'a> {\n        TBSCertificate {", "    ) -> TBSCertificate<'a> {\n        let issuer_octets = issuer.inner;\n        TBSCertificate {")],
    """
    let c = Cert { subject: name(&[]), ..Cert::default() };
    cert_ok(&c.der(), |c| {
        assert!(c.tbs_certificate.value.subject.inner.is_empty());
        assert!(!c.tbs_certificate.value.issuer.inner.is_empty());
    });
    cert_ok(&Cert::default().der(), |c| assert!(c.tbs_certificate.value.subject.inner != c.tbs_certificate.value.issuer.inner));
""")
bug("serial-sign-octet", "C20", "a serial number whose first octet is a zero in front of a set bit",
    "The octet that keeps a serial number positive is dropped",
    [(MOD, "                parser.expect::<Integer>()?,", "                {\n                    let serial = parser.expect::<Integer>()?;\n                    match serial.bytes {\n                        [0, rest @ ..] if !rest.is_empty() => ASNInteger { bytes: rest },\n                        _ => serial,\n                    }\n                },")],
    """
    let c = Cert { serial: vec![2, 3, 0, 0x80, 1], ..Cert::default() };
    cert_ok(&c.der(), |c| assert_eq!(c.tbs_certificate.value.serial_number.bytes, [0, 0x80, 1]));
    let c = Cert { serial: vec![2, 2, 0x40, 1], ..Cert::default() };
    cert_ok(&c.der(), |c| assert_eq!(c.tbs_certificate.value.serial_number.bytes, [0x40, 1]));
""")
bug("key-id-long", "C30", "a subject key identifier of more than 20 octets",
    "Only the last 20 octets of a long key identifier are kept",
    [(EXT, "        Ok(SubjectKeyIdentifier { key_identifier })", "        Ok(SubjectKeyIdentifier { key_identifier: &key_identifier[key_identifier.len().saturating_sub(20)..] })")],
    """
    let id: Vec<u8> = (0..32).collect();
    let got = |n: usize| ext_ok(&extension(EXT[0], false, &tlv(4, &id[..n])), |e| match &e.content {
        SpecificExtension::SubjectKeyIdentifier(x) => x.key_identifier.to_vec(),
        _ => panic!(),
    });
    assert_eq!(got(20), &id[..20]);
    assert_eq!(got(0), &id[..0]);
    assert_eq!(got(32), &id[..]);
""")
bug("role-then-more", "C30", "a Modbus role followed by another element",
    "What follows the text of a Modbus role is not looked at",
    [(EXT, "        let role = Parser::parse_all(input, |parser| parser.expect::<UTF8String>())?;", "        let role = Parser::new(input).expect::<UTF8String>()?;")],
    """
    let value = tlv(0x0C, b"operator");
    let role_id: &[u8] = &[6, 11, 0x2B, 6, 1, 4, 1, 0x83, 0x89, 0x0C, 0x86, 0x22, 1];
    ext_ok(&extension(role_id, true, &value), |e| match &e.content {
        SpecificExtension::ModbusRole(x) => assert_eq!(x.role, "operator"),
        _ => panic!(),
    });
    assert!(Extension::parse(&extension(role_id, true, &cat(&[&value, &[5, 0]]))).is_err());
    assert!(Extension::parse(&extension(role_id, true, &cat(&[&value, &[0x0C]]))).is_err());
""")
